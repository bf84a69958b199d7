"""What a parse of a model must give: the reference the monitors compare with."""
import os
import posixpath
from pathlib import Path

from .project import Ref, model_ident


def color(c):
    return None if c is None else ["color"] + list(c)


def path(p):
    return ["path", str(Path(p))]


def props(ps):
    out = {}
    for p in ps or ():
        v, t = p["value"], p["type"]
        if t == "class":
            continue
        out[p["name"]] = color(v) if t == "color" else path(v) if t == "file" else v
    return out


OBJ_DEFAULT = {"name": "", "class": "", "rotation": 0, "visible": True}
TEXT = {"color": ("color", (255, 255, 255, 255)), "fontfamily": ("font_family", "sans-serif"),
        "pixelsize": ("font_size", 16), "bold": ("bold", False), "italic": ("italic", False),
        "kerning": ("kerning", True), "strikeout": ("strike_out", False),
        "underline": ("underline", False), "halign": ("horizontal_align", "left"),
        "valign": ("vertical_align", "top"), "wrap": ("wrap", False)}


def merged(o):
    """The object a template instance stands for."""
    t = o.get("template")
    if t is None:
        return o
    e = dict(t["object"])
    for k, v in o.items():
        if k == "properties":
            names = {p["name"] for p in v}
            e[k] = [p for p in e.get(k, ()) if p["name"] not in names] + v
        elif k != "template":
            e[k] = v
    if "gid" not in o and "gid" in e:
        ts = t["tileset"]
        e["gid"] = Ref(model_ident(ts), (e["gid"] & 0x0FFFFFFF) - 1, e["gid"] & 0xF0000000)
    return e


def obj(o):
    o = merged(o)
    d = {"kind": o["kind"], "id": o["id"], "coordinates": [o["x"], o["y"]],
         "size": [o.get("width", 0), o.get("height", 0)], "properties": props(o.get("properties"))}
    for k, v in OBJ_DEFAULT.items():
        d[k] = o.get(k, v)
    if o["kind"] in ("Polygon", "Polyline"):
        d["points"] = [list(p) for p in o["points"]]
    elif o["kind"] == "Text":
        t = o["text"]
        d["text"] = t["text"]
        for k, (name, default) in TEXT.items():
            v = t.get(k, default)
            d[name] = color(v) if k == "color" else v
    elif o["kind"] == "Tile":
        d["gid"] = o["gid"]
        d["raw"] = False
    return d


def layer(l, fmt):
    d = {"kind": l["kind"], "name": l["name"], "id": l.get("id"), "class": l.get("class"),
         "opacity": l.get("opacity", 1), "visible": l.get("visible", True),
         "repeat": [l.get("repeatx", False), l.get("repeaty", False)],
         "coordinates": [0, 0], "parallax": [l.get("parallaxx", 1), l.get("parallaxy", 1)],
         "offset": [l.get("offsetx", 0), l.get("offsety", 0)], "size": None,
         "tint": color(l.get("tintcolor")), "properties": props(l.get("properties"))}
    k = l["kind"]
    if k == "TileLayer":
        d["size"] = [l["width"], l["height"]]
        if fmt == "json" and "start" in l:
            d["coordinates"] = list(l["start"])
        d["$cells"] = l.get("data")
        d["chunks"] = [{"coordinates": [c["x"], c["y"]], "size": [c["width"], c["height"]],
                        "$cells": c["grid"]} for c in l.get("chunks", ())] or None
    elif k == "ObjectLayer":
        d["draw_order"] = l.get("draworder", "topdown")
        d["objects"] = [obj(o) for o in l["objects"]]
    elif k == "ImageLayer":
        d["image"] = path(l["image"])
        d["transparent"] = color(l.get("transparentcolor"))
    else:
        d["layers"] = [layer(x, fmt) for x in l["layers"]]
    return d


def image(src, base_dir):
    """An image path as written, or resolved when the tileset has its own file."""
    if base_dir is None:
        return path(src)
    return ["path", os.path.realpath(os.path.join(base_dir, src))]


def tile(t, base_dir, fmt):
    im = t.get("image", {})
    o = t.get("objectgroup")
    return {"id": t["id"], "class": t.get("class"), "x": t.get("x", 0), "y": t.get("y", 0),
            "width": t.get("width", im.get("width", 0)),
            "height": t.get("height", im.get("height", 0)),
            "image": image(im["source"], base_dir) if im else None,
            "image_width": im.get("width"), "image_height": im.get("height"),
            "animation": [list(f) for f in t["animation"]] if "animation" in t else None,
            "collision": None if o is None else layer(o, fmt),
            "properties": props(t.get("properties")),
            # No document stores these: a tile is opaque and not flipped
            "opacity": 1, "flipped_horizontally": False, "flipped_vertically": False, "flipped_diagonally": False}


def wang_set(w):
    return {"name": w["name"], "tile": w["tile"], "type": w["type"], "class": w.get("class"),
            "properties": props(w.get("properties")),
            "colors": [{"name": c["name"], "color": color(c["color"]), "tile": c["tile"],
                        "probability": c["probability"], "class": c.get("class"),
                        "properties": props(c.get("properties"))} for c in w["colors"]],
            "tiles": {i: [i, list(ids)] for i, ids in w["tiles"]}}


def tileset(t, firstgid, base_dir, fmt):
    im = t.get("image", {})
    return {"name": t["name"], "tile_width": t["tilewidth"], "tile_height": t["tileheight"],
            "tile_count": t["tilecount"], "columns": t["columns"], "firstgid": firstgid,
            "type": "tileset", "tile_render_size": t.get("tilerendersize", "tile"),
            "fill_mode": t.get("fillmode", "stretch"), "spacing": t.get("spacing", 0),
            "margin": t.get("margin", 0), "tiled_version": t.get("tiledversion"),
            "version": t.get("version"), "image": image(im["source"], base_dir) if im else None,
            "image_width": im.get("width"), "image_height": im.get("height"),
            "background_color": color(t.get("backgroundcolor")),
            "transparent_color": color(im.get("trans")), "alignment": t.get("objectalignment"),
            "class": t.get("class"),
            "transformations": list(t["transformations"]) if "transformations" in t else None,
            "tile_offset": list(t["tileoffset"]) if "tileoffset" in t else None,
            "grid": list(t["grid"]) if "grid" in t else None,
            "properties": props(t.get("properties")),
            "tiles": {x["id"]: tile(x, base_dir, fmt) for x in t.get("tiles", ())},
            "wang_sets": [wang_set(w) for w in t.get("wangsets", ())]}


def file_dir(root, ts):
    return os.path.join(root, posixpath.dirname(ts["ext"]["path"]))


def placed(t, root, fmt, firstgid):
    """A tileset of a map: embedded in the map's format or in a file of its own."""
    if "ext" in t:
        return tileset(t, firstgid, file_dir(root, t), t["ext"]["fmt"])
    return tileset(t, firstgid, None, fmt)


def objects_of(layers):
    for l in layers:
        if l["kind"] == "ObjectLayer":
            yield from l["objects"]
        elif l["kind"] == "LayerGroup":
            yield from objects_of(l["layers"])


def map_(m, root, fmt, given):
    d = {"map_file": ["path", str(given)], "infinite": m["infinite"],
         "next_layer_id": m["nextlayerid"], "next_object_id": m["nextobjectid"],
         "orientation": m["orientation"], "render_order": m["renderorder"],
         "tiled_version": m["tiledversion"], "version": m["version"],
         "background_color": color(m.get("backgroundcolor")),
         "hex_side_length": m.get("hexsidelength"), "stagger_axis": m.get("staggeraxis"),
         "stagger_index": m.get("staggerindex"), "class": m.get("class"),
         "map_size": [m["width"], m["height"]], "tile_size": [m["tilewidth"], m["tileheight"]],
         "parallax_origin": [m.get("parallaxoriginx", 0), m.get("parallaxoriginy", 0)],
         "properties": props(m.get("properties")),
         "tilesets": {t["firstgid"]: placed(t, root, fmt, t["firstgid"]) for t in m["tilesets"]},
         "layers": [layer(l, fmt) for l in m["layers"]]}
    declared = {model_ident(t) for t in m["tilesets"]}
    extra, maybe = {}, {}
    for o in objects_of(m["layers"]):
        t = o.get("template")
        if t is not None and t.get("tileset") is not None and model_ident(t["tileset"]) not in declared:
            ts = t["tileset"]
            where = maybe if "gid" in o or "gid" not in t["object"] else extra
            where[model_ident(ts)] = placed(ts, root, fmt, None)
    if extra:
        d["extra_tilesets"] = extra
    if maybe:
        d["maybe_tilesets"] = {k: v for k, v in maybe.items() if k not in extra}
    return d
