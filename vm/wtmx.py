"""Writer of TMX, TSX and TX documents from models."""
import base64
import gzip
import posixpath
import struct
import zlib

from .gen import relref

ENCODINGS = ["xml", "csv", "csv", "base64", "base64-zlib", "base64-gzip"]


class Node:
    def __init__(self, tag, attrs=None, children=None, text=None, raw=False):
        self.tag = tag
        self.attrs = attrs or []
        self.children = children or []
        self.text = text
        self.raw = raw  # text that only consists of harmless characters


def flat(grid):
    return [c for row in grid for c in row]


def pack(grid):
    cells = flat(grid)
    return struct.pack(f"<{len(cells)}I", *cells)


def zstd_stub_frame(data):
    """The frame format of the stand-in zstd module (see zstub/zstd.py)."""
    return b"ZSTUB" + zlib.compress(data, 1)


def compress(data, how, st):
    if st.payload is not None and how not in ("", "zlib", "gzip"):
        head, how = st.payload
        return head + compress(data, how, st)
    lvl = st.pick([-1, 0, 1, 6, 9]) if st.on else -1
    if how == "zlib":
        if st.on and st.p(0.3):
            c = zlib.compressobj(lvl, zlib.DEFLATED, st.pick([9, 12, 15]), st.pick([1, 8, 9]),
                                 st.pick([0, 1, 2, 3, 4]))
            return c.compress(data) + c.flush()
        return zlib.compress(data, lvl)
    if how == "gzip":
        if st.on and st.p(0.3):
            h = len(data) // 2  # several members are one gzip stream
            return gzip.compress(data[:h], 6, mtime=0) + gzip.compress(data[h:], 1, mtime=0)
        return gzip.compress(data, 9 if lvl < 0 else lvl, mtime=st.r.randrange(1 << 32))
    if how == "zstd":
        return zstd_stub_frame(data)
    return data


def b64(data, st, wrap=True):
    s = base64.b64encode(data).decode()
    if wrap and st.data_ws:
        k = st.pick([0, 0, 19, 60, 76]) if st.on else 0
        if k:
            s = "\n".join(s[i:i + k] for i in range(0, len(s), k))
        pad = st.pick(["\n   ", "\n", " ", "\t\n  "]) if st.on else "\n   "
        s = pad + s + pad[:-1] + "\n"
    return s


def csv(grid, st):
    if not st.on:
        return "\n" + ",\n".join(",".join(map(str, row)) for row in grid) + "\n"
    mode = st.r.randrange(6)
    if mode == 5:
        return "\n\n" + ",\n \n\t".join("\n,".join(map(str, row)) for row in grid) + "\n \n"
    if mode == 0:
        return ",".join(str(c) for c in flat(grid))
    if mode == 1:
        return "\n" + ",\n".join(",".join(map(str, row)) for row in grid) + "\n"
    if mode == 2:
        return "\n\n  " + ", ".join(str(c) for c in flat(grid)) + "  \n"
    if mode == 3:
        return "\r\n" + ",\r\n".join(",".join(map(str, row)) for row in grid) + "\r\n"
    return "\n" + "\t,\n ".join(" , ".join(map(str, row)) for row in grid) + "\n\n"


def choose(st, encodings):
    e = st.pick(list(st.encodings or encodings) + (["base64-zstd"] if st.zstd else []))
    return e


def data_node(tag, attrs, grid, enc, st):
    if enc == "xml":
        kids = []
        for g in flat(grid):
            kids.append(Node("tile", [] if g == 0 and st.p(0.5) else [("gid", str(g))]))
        return Node(tag, attrs, kids)
    if enc == "csv":
        return Node(tag, attrs, text=csv(grid, st), raw=True)
    return Node(tag, attrs, text=b64(compress(pack(grid), enc[7:], st), st), raw=True)


def num(v, st):
    """A number where a fraction is allowed."""
    if isinstance(v, bool):
        return "1" if v else "0"
    if st.p(st.numbers):
        f = float(v)
        opts = [repr(f), f"{f!r}"]
        if float("%e" % f) == f:
            opts.append("%e" % f)
            opts.append("%E" % f)
        if f == int(f) and abs(f) < 1e15 and int(f) == v:
            opts += [str(int(f)), "%d.0" % int(f), "%d.000" % int(f), "+%d" % int(f) if f >= 0 else "%d" % int(f)]
        return st.pick([o for o in opts if float(o) == v] or [repr(v)])
    return repr(v)


def hexcolor(c, st, hash_=True, alpha=True):
    r, g, b, a = c
    s = f"{r:02x}{g:02x}{b:02x}"
    if a != 255 or (alpha and st.on and st.p(0.4)):
        s = f"{a:02x}" + s
    if st.on:
        k = st.r.randrange(4)
        s = s.upper() if k == 0 else "".join(
            ch.upper() if st.r.random() < 0.5 else ch for ch in s) if k == 1 else s
    if hash_ and not (st.on and st.p(0.15)):
        s = "#" + s
    return s


def class_attrs(d, st, old="type", new="class"):
    if "class" not in d:
        return []
    how = st.class_name
    if how == "mixed":
        how = st.pick([old, new])
    if how == "both":
        return [(old, "superseded " + d["class"][:5]), (new, d["class"])]
    return [(old if how == "type" else new, d["class"])]


def properties(d, st):
    if "properties" not in d:
        return []
    kids = []
    for p in d["properties"]:
        t, v = p["type"], p["value"]
        a = [("name", p["name"])]
        text = None
        if t == "class":
            kids.append(Node("property", a + [("type", "class"), ("propertytype", p["ptype"])],
                             properties({"properties": v}, st)))
            continue
        if t != "string":
            a.append(("type", t))
        elif st.dflt():
            a.append(("type", "string"))
        if t == "bool":
            v = "true" if v else "false"
        elif t == "color":
            v = hexcolor(v, st)
        elif t == "float":
            v = num(v, st)
        elif t != "string":
            v = str(v)
        if t == "string" and "\n" in v and st.is_plain_text():
            text = v
        else:
            a.append(("value", v))
        if p.get("ptype") and st.p(0.5):
            a.append(("propertytype", p["ptype"]))
        kids.append(Node("property", a, text=text))
    return [Node("properties", [], kids)]


def flag(d, k, st, default=None):
    if k in d:
        return [(k, "1" if d[k] else "0")]
    if default is not None and st.dflt():
        return [(k, "1" if default else "0")]
    return []


def opt(d, k, st, default=None, f=None):
    if k in d:
        return [(k, num(d[k], st) if f is None else f(d[k]))]
    if default is not None and st.dflt():
        return [(k, default)]
    return []


def junk_attr(st):
    return [(st.pick(["future", "x-editor", "zz", "locked", "data-x"]) + str(st.r.randrange(9)),
             st.pick(["", "1", "a & b", "é"]))] if st.p(st.unknown) else []


def junk_node(st):
    if not st.p(st.unknown):
        return []
    k = st.r.randrange(4)
    if k == 0:
        return [Node("futurething", [("id", "77"), ("name", "zz")],
                     [Node("properties", [], [Node("property", [("name", "zz"), ("value", "zz")])])])]
    if k == 1:
        return [Node("future", [("a", "1")], [Node("layer", [("id", "900"), ("name", "not a layer"),
                     ("width", "1"), ("height", "1")], [Node("data", [("encoding", "csv")], text="5", raw=True)]),
                     Node("object", [("id", "901"), ("x", "0"), ("y", "0")])])]
    if k == 2:
        return [Node("x.y-z_1", [], text="some text & more")]
    return [Node("extension", [], [Node("deep", [("gid", "3")], [Node("deeper")])])]


# ---------------------------------------------------------------- layers


def layer_attrs(l, st):
    a = opt(l, "id", st, f=str)
    a.append(("name", l["name"]))
    if "class" in l:
        a.append(("class", l["class"]))
    a += opt(l, "opacity", st, "1")
    a += flag(l, "visible", st, True)
    for k in ("offsetx", "offsety"):
        a += opt(l, k, st, "0")
    for k in ("parallaxx", "parallaxy"):
        a += opt(l, k, st, "1")
    a += opt(l, "tintcolor", st, f=lambda c: hexcolor(c, st))
    for k in ("repeatx", "repeaty"):
        a += flag(l, k, st, False)
    if l["name"] == "" and st.p(0.5):
        a.remove(("name", ""))
    return a + junk_attr(st)


def layer(l, st, ctx):
    k = l["kind"]
    a = layer_attrs(l, st)
    kids = properties(l, st)
    if k == "TileLayer":
        a += [("width", str(l["width"])), ("height", str(l["height"]))]
        if st.dflt():
            a += [("x", "0"), ("y", "0")]
        enc = l.get("_enc") or choose(st, ENCODINGS)
        da = []
        if enc != "xml":
            da = [("encoding", enc.split("-")[0])]
            if "-" in enc:
                da.append(("compression", enc[7:]))
            elif enc == "base64" and st.p(0.3):
                da.append(("compression", ""))
        if "chunks" in l:
            if not l["chunks"]:
                how = st.r.randrange(3) if st.on else 0
                if how < 2:
                    kids.append(Node("data", da, text="\n" if how else None, raw=True))
            else:
                kids.append(Node("data", da, [
                    data_node("chunk", [("x", str(c["x"])), ("y", str(c["y"])),
                                        ("width", str(c["width"])), ("height", str(c["height"]))],
                              c["grid"], enc, st) for c in l["chunks"]]))
        else:
            kids.append(data_node("data", da, l["data"], enc, st))
        if st.on and st.p(0.3):
            kids.reverse()
        return Node("layer", a, kids + junk_node(st))
    if k == "ObjectLayer":
        if "draworder" in l:
            a.append(("draworder", l["draworder"]))
        elif st.dflt():
            a.append(("draworder", "topdown"))
        if st.p(st.unknown):
            a.append(("color", "#a0a0a4"))
        return Node("objectgroup", a, kids + [obj(o, st, ctx) for o in l["objects"]] + junk_node(st))
    if k == "ImageLayer":
        ia = [("source", l["image"])]
        if "transparentcolor" in l:
            ia.append(("trans", hexcolor(l["transparentcolor"], st, hash_=st.on and st.p(0.5))))
        if st.p(0.5):
            ia += [("width", "32"), ("height", "48")]
        kids = [Node("image", ia)] + kids
        if st.on and st.p(0.3):
            kids.reverse()
        return Node("imagelayer", a, kids + junk_node(st))
    return Node("group", a, junk_node(st) + kids + [layer(x, st, ctx) for x in l["layers"]])


def points(ps, st):
    return " ".join(f"{num(x, st)},{num(y, st)}" for x, y in ps)


def text_node(t, st):
    a = []
    for k in ("fontfamily", "halign", "valign"):
        if k in t:
            a.append((k, t[k]))
        elif st.dflt():
            a.append((k, {"fontfamily": "sans-serif", "halign": "left", "valign": "top"}[k]))
    if "pixelsize" in t:
        a.append(("pixelsize", str(t["pixelsize"])))
    elif st.dflt():
        a.append(("pixelsize", "16"))
    if "color" in t:
        a.append(("color", hexcolor(t["color"], st)))
    for k in ("bold", "italic", "strikeout", "underline", "wrap"):
        a += flag(t, k, st, False)
    a += flag(t, "kerning", st, True)
    return Node("text", a, text=t["text"])


def obj(o, st, ctx, template=False):
    inst = "template" in o
    a = [("id", str(o["id"]))] if "id" in o else []
    if inst:
        a.append(("template", relref(o["template"]["path"], ctx["dir"])))
    for k in ("name",):
        if k in o:
            a.append((k, o[k]))
        elif not inst and st.dflt():
            a.append((k, ""))
    a += class_attrs(o, st)
    if "gid" in o:
        a.append(("gid", str(o["gid"])))
    for k in ("x", "y"):
        if k in o:
            a.append((k, num(o[k], st)))
    for k in ("width", "height", "rotation"):
        if k in o:
            a.append((k, num(o[k], st)))
        elif not inst and st.dflt():
            a.append((k, "0"))
    if "visible" in o or not inst:
        a += flag(o, "visible", st, True)
    a += junk_attr(st)
    kids = properties(o, st)
    k = o.get("kind")
    if k in ("Ellipse", "Point"):
        kids.append(Node(k.lower()))
    elif "points" in o:
        kids.append(Node(k.lower(), [("points", points(o["points"], st))]))
    elif "text" in o:
        kids.append(text_node(o["text"], st))
    if st.on and st.p(0.3):
        kids.reverse()
    return Node("object", a, kids + junk_node(st))


# ---------------------------------------------------------------- tilesets


def image_node(im, st):
    a = [("source", im["source"])]
    if "trans" in im:
        a.append(("trans", hexcolor(im["trans"], st, hash_=st.on and st.p(0.5), alpha=False)))
    for k in ("width", "height"):
        if k in im:
            a.append((k, str(im[k])))
    if st.p(st.unknown):
        a.append(("format", "png"))
    return Node("image", a)


def tile(t, st):
    a = [("id", str(t["id"]))] + class_attrs(t, st)
    for k in ("x", "y", "width", "height"):
        if k in t:
            a.append((k, str(t[k])))
        elif k in "xy" and st.dflt():
            a.append((k, "0"))
    if st.p(st.unknown):
        a.append(("probability", "0.5"))
    if st.p(st.unknown):
        a.append(("terrain", "0,,1,"))
    kids = properties(t, st)
    if "image" in t:
        kids.append(image_node(t["image"], st))
    if "objectgroup" in t:
        kids.append(layer(t["objectgroup"], st, None))
    if "animation" in t:
        kids.append(Node("animation", [], [Node("frame", [("tileid", str(i)), ("duration", str(n))])
                                           for i, n in t["animation"]]))
    if st.on and st.p(0.3):
        st.r.shuffle(kids)
    return Node("tile", a + junk_attr(st), kids + junk_node(st))


def wang_set(w, st):
    a = [("name", w["name"])]
    if "class" in w:
        a.append(("class", w["class"]))
    a += [("type", w["type"]), ("tile", str(w["tile"]))]
    kids = properties(w, st)
    for c in w["colors"]:
        ca = [("name", c["name"])]
        if "class" in c:
            ca.append(("class", c["class"]))
        ca += [("color", hexcolor(c["color"], st)), ("tile", str(c["tile"])),
               ("probability", num(c["probability"], st))]
        kids.append(Node("wangcolor", ca + junk_attr(st), properties(c, st)))
    for i, ids in w["tiles"]:
        sep = st.pick([",", ",", ", "]) if st.on else ","
        kids.append(Node("wangtile", [("tileid", str(i)), ("wangid", sep.join(map(str, ids)))]))
    return Node("wangset", a + junk_attr(st), kids + junk_node(st))


def tileset_attrs(t, st):
    a = [("name", t["name"])]
    if "class" in t:
        a.append(("class", t["class"]))
    for k in ("tilewidth", "tileheight", "tilecount", "columns"):
        a.append((k, str(t[k])))
    for k in ("spacing", "margin"):
        if k in t:
            a.append((k, str(t[k])))
        elif st.dflt():
            a.append((k, "0"))
    for k, d in (("version", None), ("tiledversion", None), ("objectalignment", None),
                 ("tilerendersize", "tile"), ("fillmode", "stretch")):
        if k in t:
            a.append((k, t[k]))
        elif d and st.dflt():
            a.append((k, d))
    if "backgroundcolor" in t:
        a.append(("backgroundcolor", hexcolor(t["backgroundcolor"], st)))
    return a


def tileset_kids(t, st):
    kids = properties(t, st)
    if "tileoffset" in t:
        kids.append(Node("tileoffset", [("x", str(t["tileoffset"][0])), ("y", str(t["tileoffset"][1]))]))
    if "grid" in t:
        o, w, h = t["grid"]
        kids.append(Node("grid", [("orientation", o), ("width", str(w)), ("height", str(h))]))
    if "transformations" in t:
        kids.append(Node("transformations", [(k, "1" if v else "0") for k, v in zip(
            ("hflip", "vflip", "rotate", "preferuntransformed"), t["transformations"])]))
    if "image" in t:
        kids.append(image_node(t["image"], st))
    kids += [tile(x, st) for x in t.get("tiles", ())]
    if "wangsets" in t:
        kids.append(Node("wangsets", [], [wang_set(w, st) for w in t["wangsets"]]))
    if st.p(st.unknown):
        kids.insert(0, Node("editorsettings", [], [Node("export", [("target", "x.json"), ("format", "json")])]))
    return kids + junk_node(st)


def tileset(t, st):
    """A TSX document."""
    return Node("tileset", tileset_attrs(t, st) + junk_attr(st), tileset_kids(t, st))


def tileset_ref(t, st, dir_, firstgid):
    if "ext" in t:
        return Node("tileset", [("firstgid", str(firstgid)), ("source", relref(t["ext"]["path"], dir_))])
    return Node("tileset", [("firstgid", str(firstgid))] + tileset_attrs(t, st) + junk_attr(st),
                tileset_kids(t, st))


def template(t, st):
    d = posixpath.dirname(t["path"])
    kids = []
    if t.get("tileset") is not None:
        kids.append(tileset_ref(t["tileset"], st, d, 1))
    kids.append(obj(t["object"], st, {"dir": d}, template=True))
    return Node("template", junk_attr(st), kids)


def map_(m, st, dir_):
    ctx = {"dir": dir_}
    a = [("version", m["version"]), ("tiledversion", m["tiledversion"])]
    if "class" in m:
        a.append(("class", m["class"]))
    for k in ("orientation", "renderorder"):
        a.append((k, m[k]))
    for k in ("width", "height", "tilewidth", "tileheight"):
        a.append((k, str(m[k])))
    a.append(("infinite", "1" if m["infinite"] else "0"))
    if "hexsidelength" in m:
        a.append(("hexsidelength", str(m["hexsidelength"])))
    for k in ("staggeraxis", "staggerindex"):
        if k in m:
            a.append((k, m[k]))
    for k in ("parallaxoriginx", "parallaxoriginy"):
        a += opt(m, k, st, "0")
    if "backgroundcolor" in m:
        a.append(("backgroundcolor", hexcolor(m["backgroundcolor"], st)))
    for k in ("nextlayerid", "nextobjectid"):
        a.append((k, str(m[k])))
    if st.p(st.unknown):
        a.append(("compressionlevel", "-1"))
    kids = []
    if st.p(st.unknown):
        kids.append(Node("editorsettings", [], [Node("chunksize", [("width", "32"), ("height", "32")]),
                                                Node("export", [("target", "a.tmx"), ("format", "tmx")])]))
    kids += properties(m, st)
    kids += [tileset_ref(t, st, dir_, t["firstgid"]) for t in m["tilesets"]]
    body = []
    for l in m["layers"]:
        body.append(layer(l, st, ctx))
        body += junk_node(st)
    if st.on and st.p(0.1):
        kids, body = body, kids  # layers before the tilesets they use
    return Node("map", a + junk_attr(st), kids + body)


# ---------------------------------------------------------------- serialising


def esc(s, st, quote):
    out = []
    for ch in s:
        c = ord(ch)
        if ch == "&":
            out.append("&amp;")
        elif ch == "<":
            out.append("&lt;")
        elif ch == ">":
            out.append("&gt;")
        elif quote and ch == quote:
            out.append("&quot;" if ch == '"' else "&apos;")
        elif ch == "\r" or (quote and ch in "\n\t"):
            out.append(f"&#{c};" if not st.on or st.p(0.5) else f"&#x{c:x};")
        elif c > 0x7e and st.charref and st.p(st.charref):
            out.append(f"&#{c};" if st.p(0.5) else f"&#x{c:X};")
        elif st.charref and ch.isalnum() and st.p(st.charref * 0.1):
            out.append(f"&#{c};")
        else:
            out.append(ch)
    return "".join(out)


def serialise(root, st):
    nl = st.newline
    out = [st.leading if st.decl == 0 else ""]
    if st.decl == 1:
        out.append('<?xml version="1.0" encoding="UTF-8"?>' + nl)
    elif st.decl == 2:
        out.append("<?xml version='1.0' encoding='utf-8'?>")
    elif st.decl == 3:
        out.append('<?xml version="1.0"?>' + nl + nl)
    if st.doctype:
        out.append(f'<!DOCTYPE {root.tag} SYSTEM "http://mapeditor.org/dtd/1.0/map.dtd">' + nl)

    def comment():
        if st.p(st.comments):
            out.append(st.pick(["<!-- note -->", "<!---->", '<!-- <layer name="x"/> & -->',
                                "<!-- é\n 2 -->", "<?pi some='thing'?>"]))

    def emit(n, depth):
        ind = "" if st.indent is None else nl + st.indent * depth
        if depth:
            out.append(ind)
        comment()
        attrs = list(n.attrs)
        if st.shuffle:
            st.r.shuffle(attrs)
        q = st.quote
        out.append("<" + n.tag)
        for k, v in attrs:
            sep = " " if not st.tight or st.r.random() < 0.9 else st.pick(["  ", "\n\t", " "])
            eq = "=" if not st.tight or st.r.random() < 0.95 else " = "
            out.append(f"{sep}{k}{eq}{q}{esc(v, st, q)}{q}")
        if not n.children and not n.text:
            out.append("/>" if st.selfclose else f"></{n.tag}>")
            return
        out.append(">")
        if n.text:
            if n.raw:
                out.append(n.text)
            elif st.cdata and "]]>" not in n.text and "\r" not in n.text and st.p(st.cdata):
                out.append(f"<![CDATA[{n.text}]]>")
            else:
                out.append(esc(n.text, st, None))
        for c in n.children:
            emit(c, depth + 1)
        if n.children:
            comment()
            out.append(ind)
        out.append(f"</{n.tag}>" if not st.tight or st.r.random() < 0.9 else f"</{n.tag} >")

    comment()
    emit(root, 0)
    out.append(st.trailing)
    return "".join(out)
