"""Writer of JSON maps, tilesets, templates and worlds from models."""
import json
import posixpath

from .gen import relref
from .wtmx import b64, choose, class_attrs, compress, flat, hexcolor, pack

ENCODINGS = ["array", "array", "csv", "base64", "base64-zlib", "base64-gzip"]


class Frac(float):
    """A number where a fraction is allowed, so that its spelling may vary."""


def frac(v):
    return ("frac", v)


def props(d, st):
    if "properties" not in d:
        return {}
    ps = d["properties"]
    if st.legacy_props and all(p["type"] in ("string", "int", "float", "bool") for p in ps):
        return {"properties": {p["name"]: frac(p["value"]) if p["type"] == "float" else p["value"]
                               for p in ps}}
    out = []
    for p in ps:
        t, v = p["type"], p["value"]
        if t == "color":
            v = hexcolor(v, st)
        elif t == "float":
            v = frac(v)
        elif t == "class":
            v = {x["name"]: x["value"] for x in v}
        e = {"name": p["name"], "type": t, "value": v}
        if p.get("ptype"):
            e["propertytype"] = p["ptype"]
        out.append(e)
    return {"properties": out}


def junk(d, st):
    if st.p(st.unknown):
        k = st.pick(["future", "x-editor", "zz", "locked", "editor data"]) + str(st.r.randrange(9))
        d[k] = st.pick([None, 1, "", "text", [], [1, {"layers": []}], {"name": "zz", "gid": 3}, True])
    return d


def klass(d, st):
    return dict(class_attrs(d, st))


def layer(l, st, ctx):
    k = l["kind"]
    d = {"name": l["name"], "opacity": frac(l.get("opacity", 1)),
         "visible": l.get("visible", True), "x": 0, "y": 0}
    if "id" in l:
        d["id"] = l["id"]
    if "class" in l:
        d["class"] = l["class"]
    for key, dflt in (("offsetx", 0), ("offsety", 0), ("parallaxx", 1), ("parallaxy", 1)):
        if key in l:
            d[key] = frac(l[key])
        elif st.dflt():
            d[key] = frac(dflt)
    if "tintcolor" in l:
        d["tintcolor"] = hexcolor(l["tintcolor"], st)
    for key in ("repeatx", "repeaty"):
        if key in l:
            d[key] = l[key]
        elif st.dflt():
            d[key] = False
    d.update(props(l, st))
    if k == "TileLayer":
        d["type"] = "tilelayer"
        d["width"], d["height"] = l["width"], l["height"]
        enc = l.get("_enc") or choose(st, ENCODINGS)
        if enc == "xml":
            enc = "array"
        if enc == "csv":
            d["encoding"] = "csv"
            if st.p(0.5):
                d["compression"] = ""
        elif enc != "array":
            d["encoding"] = enc.split("-")[0]
            comp = enc[7:]
            if comp or not st.on or st.p(0.6):
                d["compression"] = comp

        def data(grid):
            if enc in ("array", "csv"):
                return flat(grid)
            return b64(compress(pack(grid), enc[7:], st), st, wrap=st.on and st.p(0.2))

        if "chunks" in l:
            d["chunks"] = [{"x": c["x"], "y": c["y"], "width": c["width"], "height": c["height"],
                            "data": data(c["grid"])} for c in l["chunks"]]
            if "start" in l:
                d["startx"], d["starty"] = l["start"]
        else:
            d["data"] = data(l["data"])
    elif k == "ObjectLayer":
        d["type"] = "objectgroup"
        d["draworder"] = l.get("draworder", "topdown")
        d["objects"] = [obj(o, st, ctx) for o in l["objects"]]
    elif k == "ImageLayer":
        d["type"] = "imagelayer"
        d["image"] = l["image"]
        if "transparentcolor" in l:
            d["transparentcolor"] = hexcolor(l["transparentcolor"], st)
    else:
        d["type"] = "group"
        d["layers"] = [layer(x, st, ctx) for x in l["layers"]]
    return junk(d, st)


def text(t, st):
    d = {"text": t["text"]}
    for k in ("fontfamily", "halign", "valign", "pixelsize", "bold", "italic", "strikeout",
              "underline", "wrap", "kerning"):
        if k in t:
            d[k] = t[k]
        elif st.dflt():
            d[k] = {"fontfamily": "sans-serif", "halign": "left", "valign": "top",
                    "pixelsize": 16, "kerning": True}.get(k, False)
    if "color" in t:
        d["color"] = hexcolor(t["color"], st)
    return d


def obj(o, st, ctx, template=False):
    inst = "template" in o
    d = {}
    if "id" in o:
        d["id"] = o["id"]
    if inst:
        d["template"] = relref(o["template"]["path"], ctx["dir"])
    for k in ("x", "y"):
        if k in o:
            d[k] = frac(o[k])
    full = not inst
    for k, dflt in (("width", 0), ("height", 0), ("rotation", 0)):
        if k in o or full:
            d[k] = frac(o.get(k, dflt))
    for k, dflt in (("name", ""), ("visible", True)):
        if k in o or full:
            d[k] = o.get(k, dflt)
    d.update(klass(o, st))
    if full and "class" not in o and st.dflt():
        d[st.pick(["class", "type"])] = ""
    if "gid" in o:
        d["gid"] = o["gid"]
    d.update(props(o, st))
    k = o.get("kind")
    if k in ("Ellipse", "Point"):
        d[k.lower()] = True
    elif "points" in o:
        d[k.lower()] = [{"x": frac(x), "y": frac(y)} for x, y in o["points"]]
    elif "text" in o:
        d["text"] = text(o["text"], st)
    return junk(d, st)


def tile(t, st, keyed=False):
    d = {} if keyed else {"id": t["id"]}
    d.update(klass(t, st))
    for k in ("x", "y", "width", "height"):
        if k in t:
            d[k] = t[k]
        elif k in "xy" and st.dflt():
            d[k] = 0
    if "image" in t:
        im = t["image"]
        d["image"] = im["source"]
        if "width" in im:
            d["imagewidth"] = im["width"]
        if "height" in im:
            d["imageheight"] = im["height"]
    if "animation" in t:
        d["animation"] = [{"tileid": i, "duration": n} for i, n in t["animation"]]
    if "objectgroup" in t:
        d["objectgroup"] = layer(t["objectgroup"], st, None)
    d.update(props(t, st))
    if st.p(st.unknown):
        d["terrain"] = [0, -1, -1, 0]
    if st.p(st.unknown):
        d["probability"] = 0.5
    return junk(d, st)


def wang_set(w, st):
    d = {"name": w["name"], "type": w["type"], "tile": w["tile"]}
    if "class" in w:
        d["class"] = w["class"]
    d.update(props(w, st))
    d["colors"] = []
    for c in w["colors"]:
        e = {"name": c["name"], "color": hexcolor(c["color"], st), "tile": c["tile"],
             "probability": frac(c["probability"])}
        if "class" in c:
            e["class"] = c["class"]
        e.update(props(c, st))
        d["colors"].append(junk(e, st))
    d["wangtiles"] = [{"tileid": i, "wangid": list(ids)} for i, ids in w["tiles"]]
    return junk(d, st)


def version(v, st):
    if st.legacy_version and v.replace(".", "", 1).isdigit():
        n = float(v) if "." in v else int(v)
        if str(n) == v:
            return n
    return v


def tileset(t, st, embedded=False):
    d = {"name": t["name"], "type": "tileset"} if not embedded or st.p(0.5) else {"name": t["name"]}
    if "class" in t:
        d["class"] = t["class"]
    for k in ("tilewidth", "tileheight", "tilecount", "columns"):
        d[k] = t[k]
    if "columns" in st.legacy_omit and t["columns"] == 1:
        del d["columns"]
    for k in ("spacing", "margin"):
        d[k] = t.get(k, 0)
    for k, dflt in (("tiledversion", None), ("objectalignment", None), ("tilerendersize", "tile"),
                    ("fillmode", "stretch")):
        if k in t:
            d[k] = t[k]
        elif dflt and st.dflt():
            d[k] = dflt
    if "version" in t:
        d["version"] = version(t["version"], st)
    if "backgroundcolor" in t:
        d["backgroundcolor"] = hexcolor(t["backgroundcolor"], st)
    if "tileoffset" in t:
        d["tileoffset"] = {"x": t["tileoffset"][0], "y": t["tileoffset"][1]}
    if "grid" in t:
        o, w, h = t["grid"]
        d["grid"] = {"orientation": o, "width": w, "height": h}
    if "transformations" in t:
        d["transformations"] = dict(zip(("hflip", "vflip", "rotate", "preferuntransformed"),
                                        t["transformations"]))
    if "image" in t:
        im = t["image"]
        d["image"] = im["source"]
        if "width" in im:
            d["imagewidth"] = im["width"]
        if "height" in im:
            d["imageheight"] = im["height"]
        if "trans" in im:
            d["transparentcolor"] = hexcolor(im["trans"], st, alpha=False)
    d.update(props(t, st))
    if "tiles" in t:
        if st.legacy_tiles:
            d["tiles"] = {str(x["id"]): tile(x, st, keyed=True) for x in t["tiles"]}
        else:
            d["tiles"] = [tile(x, st) for x in t["tiles"]]
    if "wangsets" in t:
        d["wangsets"] = [wang_set(w, st) for w in t["wangsets"]]
    if st.p(st.unknown):
        d["editorsettings"] = {"export": {"format": "json", "target": "x.json"}}
    return junk(d, st)


def tileset_ref(t, st, dir_, firstgid):
    if "ext" in t:
        return {"firstgid": firstgid, "source": relref(t["ext"]["path"], dir_)}
    return dict({"firstgid": firstgid}, **tileset(t, st, embedded=True))


def template(t, st):
    d = posixpath.dirname(t["path"])
    out = {"type": "template"}
    if t.get("tileset") is not None:
        out["tileset"] = tileset_ref(t["tileset"], st, d, 1)
    out["object"] = obj(t["object"], st, {"dir": d}, template=True)
    return junk(out, st)


def map_(m, st, dir_):
    ctx = {"dir": dir_}
    d = {"type": "map", "version": version(m["version"], st), "tiledversion": m["tiledversion"],
         "infinite": m["infinite"]}
    for k in ("orientation", "renderorder", "width", "height", "tilewidth", "tileheight",
              "nextlayerid", "nextobjectid"):
        d[k] = m[k]
    for k in st.legacy_omit:
        if k == "infinite" and m["infinite"]:
            continue
        d.pop(k, None)
    for k in ("class", "hexsidelength", "staggeraxis", "staggerindex"):
        if k in m:
            d[k] = m[k]
    for k in ("parallaxoriginx", "parallaxoriginy"):
        if k in m:
            d[k] = frac(m[k])
        elif st.dflt():
            d[k] = frac(0)
    if "backgroundcolor" in m:
        d["backgroundcolor"] = hexcolor(m["backgroundcolor"], st)
    if st.p(st.unknown):
        d["compressionlevel"] = -1
        d["editorsettings"] = {"chunksize": {"width": 32, "height": 32}}
    d.update(props(m, st))
    d["tilesets"] = [tileset_ref(t, st, dir_, t["firstgid"]) for t in m["tilesets"]]
    d["layers"] = [layer(l, st, ctx) for l in m["layers"]]
    return junk(d, st)


# ---------------------------------------------------------------- serialising


def number(v, st):
    if st.p(st.numbers):
        f = float(v)
        opts = [repr(f)]
        if float("%e" % f) == f:
            opts += ["%e" % f, "%E" % f]
        if f == int(f) and abs(f) < 1e15:
            opts += [str(int(f)), "%d.0" % int(f), "%de0" % int(f)]
        return st.pick([o for o in opts if float(o) == v] or [repr(v)])
    return repr(v)


def string(s, st):
    out = json.dumps(s, ensure_ascii=st.ascii)
    if st.slash:
        out = out.replace("/", "\\/")
    if st.charref:
        res = []
        i = 0
        while i < len(out):
            ch = out[i]
            if ch == "\\":
                k = 6 if out[i + 1] == "u" else 2
                res.append(out[i:i + k])
                i += k
                continue
            if ch.isalnum() and ord(ch) < 128 and st.p(st.charref * 0.1):
                res.append("\\u%04x" % ord(ch))
            else:
                res.append(ch)
            i += 1
        out = "".join(res)
    return out


def serialise(doc, st):
    nl = st.newline
    out = [st.leading]

    def emit(v, depth):
        if isinstance(v, tuple) and v and v[0] == "frac":
            out.append(number(v[1], st))
        elif v is True or v is False or v is None:
            out.append({True: "true", False: "false", None: "null"}[v])
        elif isinstance(v, str):
            out.append(string(v, st))
        elif isinstance(v, (int, float)):
            out.append(repr(v))
        elif isinstance(v, (list, tuple)):
            if not v:
                out.append("[]" if not st.tight else "[ ]")
            elif all(type(x) is int for x in v):
                out.append("[" + ("," if st.indent is None else ", ").join(map(repr, v)) + "]")
            else:
                box(v, "[]", depth, None)
        else:
            if not v:
                out.append("{}")
            else:
                keys = list(v)
                if st.shuffle:
                    st.r.shuffle(keys)
                box(keys, "{}", depth, v)

    def box(items, br, depth, d):
        sp = "" if st.indent is None else nl + st.indent * (depth + 1)
        out.append(br[0])
        for i, x in enumerate(items):
            out.append(("," if i else "") + sp)
            if d is not None:
                out.append(string(x, st) + (":" if st.indent is None else ": "))
                emit(d[x], depth + 1)
            else:
                emit(x, depth + 1)
        out.append("" if st.indent is None else nl + st.indent * depth)
        out.append(br[1])

    emit(doc, 0)
    out.append(st.trailing)
    return "".join(out)
