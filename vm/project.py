"""Projection of parse results to plain data, and the structural comparison.

Only the documented public attributes are read.  Immutable values are tagged so that a
number, a text, a boolean, a colour and a path can never be mistaken for each other.
"""
from pathlib import PurePath

MISSING = ["missing attribute"]


def scalar(v):
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if isinstance(v, PurePath):
        return ["path", str(v)]
    if isinstance(v, tuple) and hasattr(v, "red"):
        return ["color"] + [getattr(v, n, "?") for n in ("red", "green", "blue", "alpha")]
    return ["other", type(v).__name__, repr(v)[:200]]


def get(o, name):
    try:
        return getattr(o, name)
    except AttributeError:
        return MISSING


def pair(v):
    if v is None:
        return None
    if hasattr(v, "x") and hasattr(v, "y"):
        return [scalar(v.x), scalar(v.y)]
    if hasattr(v, "width") and hasattr(v, "height"):
        return [scalar(v.width), scalar(v.height)]
    if isinstance(v, tuple) and len(v) == 2:
        return [scalar(v[0]), scalar(v[1])]
    return ["other", repr(v)[:200]]


def props(v):
    if v is None:
        return {}
    if not isinstance(v, dict):
        return ["other", repr(v)[:200]]
    return {k: scalar(x) for k, x in v.items()}


def grid(v):
    if v is None:
        return None
    return [list(row) for row in v]


def seq(v, f):
    if v is None:
        return None
    if not isinstance(v, (list, tuple)):
        return ["other", repr(v)[:200]]
    return [f(x) for x in v]


def chunk(c):
    return {
        "coordinates": pair(get(c, "coordinates")),
        "size": pair(get(c, "size")),
        "$cells": grid(get(c, "data")),
    }


OBJ_KINDS = ("Ellipse", "Point", "Polygon", "Polyline", "Rectangle", "Text", "Tile")
LAYER_KINDS = ("TileLayer", "ObjectLayer", "ImageLayer", "LayerGroup")


def kind_of(o, module, names):
    for n in names:
        cls = getattr(module, n, None)
        if cls is not None and isinstance(o, cls):
            return n
    return "other:" + type(o).__name__


def obj(o):
    import pytiled_parser.tiled_object as m

    k = kind_of(o, m, OBJ_KINDS)
    d = {
        "kind": k,
        "id": scalar(get(o, "id")),
        "name": scalar(get(o, "name")),
        "class": scalar(get(o, "class_")),
        "coordinates": pair(get(o, "coordinates")),
        "size": pair(get(o, "size")),
        "rotation": scalar(get(o, "rotation")),
        "visible": scalar(get(o, "visible")),
        "properties": props(get(o, "properties")),
    }
    if k in ("Polygon", "Polyline"):
        d["points"] = seq(get(o, "points"), pair)
    elif k == "Text":
        for a in ("text", "color", "font_family", "font_size", "bold", "italic",
                  "kerning", "strike_out", "underline", "horizontal_align",
                  "vertical_align", "wrap"):
            d[a] = scalar(get(o, a))
    elif k == "Tile":
        d["gid"] = scalar(get(o, "gid"))
        d["raw"] = getattr(o, "new_tileset", None) is not None or getattr(
            o, "new_tileset_path", None) is not None
    return d


def layer(l):
    import pytiled_parser.layer as m

    k = kind_of(l, m, LAYER_KINDS)
    d = {
        "kind": k,
        "name": scalar(get(l, "name")),
        "id": scalar(get(l, "id")),
        "class": scalar(get(l, "class_")),
        "opacity": scalar(get(l, "opacity")),
        "visible": scalar(get(l, "visible")),
        "repeat": [scalar(get(l, "repeat_x")), scalar(get(l, "repeat_y"))],
        "coordinates": pair(get(l, "coordinates")),
        "parallax": pair(get(l, "parallax_factor")),
        "offset": pair(get(l, "offset")),
        "size": pair(get(l, "size")),
        "tint": scalar(get(l, "tint_color")),
        "properties": props(get(l, "properties")),
    }
    if k == "TileLayer":
        d["$cells"] = grid(get(l, "data"))
        d["chunks"] = seq(get(l, "chunks"), chunk) or None
    elif k == "ObjectLayer":
        d["draw_order"] = scalar(get(l, "draw_order"))
        d["objects"] = seq(get(l, "tiled_objects"), obj)
    elif k == "ImageLayer":
        d["image"] = scalar(get(l, "image"))
        d["transparent"] = scalar(get(l, "transparent_color"))
    elif k == "LayerGroup":
        d["layers"] = seq(get(l, "layers"), layer) or []
    return d


def tile(t):
    o = get(t, "objects")
    g = {a: scalar(get(t, a)) for a in ("id", "x", "y", "width", "height", "image",
                                        "image_width", "image_height", "opacity", "flipped_horizontally",
                                        "flipped_vertically", "flipped_diagonally")}
    g["class"] = scalar(get(t, "class_"))
    g["animation"] = seq(get(t, "animation"),
                         lambda f: [scalar(get(f, "tile_id")), scalar(get(f, "duration"))])
    g["collision"] = None if o is None else layer(o)
    g["properties"] = props(get(t, "properties"))
    return g


def wang_color(c):
    d = {a: scalar(get(c, a)) for a in ("name", "color", "tile", "probability")}
    d["class"] = scalar(get(c, "class_"))
    d["properties"] = props(get(c, "properties"))
    return d


def wang_set(w):
    tiles = get(w, "wang_tiles")
    return {
        "name": scalar(get(w, "name")),
        "tile": scalar(get(w, "tile")),
        "type": scalar(get(w, "wang_type")),
        "class": scalar(get(w, "class_")),
        "properties": props(get(w, "properties")),
        "colors": seq(get(w, "wang_colors"), wang_color),
        "tiles": {k: [scalar(get(t, "tile_id")), seq(get(t, "wang_id"), scalar)]
                  for k, t in tiles.items()} if isinstance(tiles, dict) else repr(tiles),
    }


def tileset(t):
    d = {a: scalar(get(t, a)) for a in (
        "name", "tile_width", "tile_height", "tile_count", "columns", "firstgid", "type",
        "tile_render_size", "fill_mode", "spacing", "margin", "tiled_version", "version",
        "image", "image_width", "image_height", "background_color", "transparent_color",
        "alignment")}
    d["class"] = scalar(get(t, "class_"))
    tr = get(t, "transformations")
    d["transformations"] = None if tr is None else [
        scalar(get(tr, a)) for a in ("hflip", "vflip", "rotate", "prefer_untransformed")]
    d["tile_offset"] = pair(get(t, "tile_offset"))
    g = get(t, "grid")
    d["grid"] = None if g is None else [
        scalar(get(g, a)) for a in ("orientation", "width", "height")]
    d["properties"] = props(get(t, "properties"))
    tiles = get(t, "tiles")
    d["tiles"] = {k: tile(x) for k, x in tiles.items()} if isinstance(tiles, dict) else (
        {} if tiles is None else repr(tiles))
    d["wang_sets"] = seq(get(t, "wang_sets"), wang_set) or []
    return d


def map_(m):
    d = {a: scalar(get(m, a)) for a in (
        "map_file", "infinite", "next_layer_id", "next_object_id", "orientation",
        "render_order", "tiled_version", "version", "background_color", "hex_side_length",
        "stagger_axis", "stagger_index")}
    d["class"] = scalar(get(m, "class_"))
    d["map_size"] = pair(get(m, "map_size"))
    d["tile_size"] = pair(get(m, "tile_size"))
    d["parallax_origin"] = pair(get(m, "parallax_origin"))
    d["properties"] = props(get(m, "properties"))
    ts = get(m, "tilesets")
    d["tilesets"] = {k: tileset(x) for k, x in ts.items()} if isinstance(ts, dict) else repr(ts)
    d["layers"] = seq(get(m, "layers"), layer)
    return d


def world(w):
    return {
        "adjacent": scalar(get(w, "only_show_adjacent")),
        "maps": seq(get(w, "maps"), lambda m: {
            "map_file": scalar(get(m, "map_file")),
            "size": pair(get(m, "size")),
            "coordinates": pair(get(m, "coordinates")),
        }),
    }


def any_(r):
    """Project a parse result of any of the three entry points."""
    n = type(r).__name__
    if hasattr(r, "layers") and hasattr(r, "tilesets"):
        return map_(r)
    if hasattr(r, "firstgid"):
        return tileset(r)
    if hasattr(r, "maps"):
        return world(r)
    return ["other", n]


# ----------------------------------------------------------------- comparison


class Ref:
    """Expected gid of a tile object placed from a template: resolved through the
    parsed map's own tileset table."""

    def __init__(self, ident, local, flags):
        self.ident, self.local, self.flags = ident, local, flags

    def __repr__(self):
        return f"<tile {self.local} of tileset {self.ident!r} flags {self.flags:#x}>"


def model_ident(t):
    """What tells a tileset of the model from others; names alone need not differ."""
    return t["name"], t["columns"]


def ident(t):
    return t["name"], t["columns"]


def resolve(tilesets, gid):
    """The (tileset, local id, flags) a gid means in a projected tileset table."""
    flags = gid & 0xF0000000
    plain = gid & 0x0FFFFFFF
    best = None
    for first in tilesets:
        if isinstance(first, int) and first <= plain and (best is None or first > best):
            best = first
    if best is None:
        return (None, plain, flags)
    return (ident(tilesets[best]), plain - best, flags)


def same(e, a):
    if isinstance(e, bool) or isinstance(a, bool):
        return isinstance(e, bool) and isinstance(a, bool) and e == a
    if isinstance(e, (int, float)) and isinstance(a, (int, float)):
        return e == a
    return type(e) is type(a) and e == a


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def diff(e, a, path=(), out=None, tilesets=None, limit=40):
    """List of (path, expected, actual) where the two projections differ."""
    if out is None:
        out = []
    if len(out) >= limit:
        return out
    if isinstance(e, Ref):
        got = resolve(tilesets or {}, a) if is_int(a) else a
        if got != (e.ident, e.local, e.flags):
            out.append((path, e, (a, got)))
    elif isinstance(e, dict) and isinstance(a, dict):
        for k in e:
            if k not in a:
                out.append((path + (k,), e[k], MISSING))
            else:
                diff(e[k], a[k], path + (k,), out, tilesets, limit)
        for k in a:
            if k not in e:
                out.append((path + (k,), MISSING, a[k]))
    elif path and path[-1] == "$cells" and isinstance(e, list) and isinstance(a, list):
        # Tile ids must be integers, exactly
        if e != a or any(type(c) is not int for row in a for c in row):
            if len(e) != len(a):
                out.append((path, f"{len(e)} rows", f"{len(a)} rows"))
            else:
                for i, (x, y) in enumerate(zip(e, a)):
                    if x != y or any(type(c) is not int for c in y):
                        j = next((j for j, (p, q) in enumerate(zip(x, y))
                                  if p != q or type(q) is not int), None)
                        if len(x) != len(y):
                            out.append((path + (i,), f"{len(x)} columns {x[:8]}",
                                        f"{len(y)} columns {y[:8]}"))
                        else:
                            out.append((path + (i, j), x[j], y[j]))
                        break
    elif isinstance(e, list) and isinstance(a, list) and not (tagged(e) or tagged(a)):
        if len(e) != len(a):
            out.append((path, brief(e), brief(a)))
            if e and isinstance(e[0], dict):
                for i, (x, y) in enumerate(zip(e, a)):
                    diff(x, y, path + (i,), out, tilesets, limit)
        else:
            for i, (x, y) in enumerate(zip(e, a)):
                diff(x, y, path + (i,), out, tilesets, limit)
    elif not same(e, a):
        out.append((path, e, a))
    return out


def tagged(v):
    """Is it one value (a path, a colour...) that scalar() wrote as a list?"""
    return bool(v) and v[0] in ("path", "color", "other")


def brief(v):
    s = repr([x.get("name", x.get("kind")) if isinstance(x, dict) else x for x in v])
    return f"{len(v)} items " + s[:200]


def diff_map(e, a):
    """Compare a whole expected map.  Besides plain keys the expectation may carry
    "extra_tilesets": tilesets that only a template brings in, whose first gid is free
    (each exactly once, after all declared ones, without overlap) and
    "maybe_tilesets": ones that may be there or not."""
    e = dict(e)
    extra = dict(e.pop("extra_tilesets", {}))
    maybe = dict(e.pop("maybe_tilesets", {}))
    declared = e.pop("tilesets")
    a = dict(a)
    got = a.pop("tilesets")
    out = []
    if not isinstance(got, dict):
        return [(("tilesets",), "a table", got)]
    for k, t in declared.items():
        if k not in got:
            out.append((("tilesets", k), t["name"], MISSING))
        else:
            diff(t, got[k], ("tilesets", k), out)
    last = max((first + extent(t) for first, t in declared.items()), default=1)
    seen = {}
    for k, t in got.items():
        if k in declared:
            continue
        name = ident(t)
        want = extra.get(name) or maybe.get(name)
        if want is None or name in seen:
            out.append((("tilesets", k), MISSING, f"tileset {name!r} twice or undeclared"))
            continue
        seen[name] = k
        if not is_int(k) or k < last:
            out.append((("tilesets", k, "key"), f"first gid of at least {last}", k))
        diff(dict(want, firstgid=k), t, ("tilesets", k), out)
    for name in extra:
        if name not in seen:
            out.append((("tilesets",), f"tileset {name!r} of a template", MISSING))
    spans = sorted((k, k + extent(t), t["name"]) for k, t in got.items() if is_int(k))
    for (a0, a1, an), (b0, b1, bn) in zip(spans, spans[1:]):
        if b0 < a1:
            out.append((("tilesets", b0, "range"), "disjoint gid ranges", (an, a0, a1, bn, b0, b1)))
    diff(e, a, (), out, got)
    return out


def extent(t):
    ids = [i for i in t["tiles"] if is_int(i)]
    count = t["tile_count"] if is_int(t["tile_count"]) else 0
    return max(count, max(ids, default=-1) + 1)


def aspect(path):
    """Which group of properties a differing path belongs to."""
    p = set(path)
    strs = [x for x in path if isinstance(x, str)]
    if "properties" in p:
        return "properties"
    if "wang_sets" in p:
        return "wang"
    if "objects" in p or "collision" in p:
        return "objects" if "objects" in p else "tilesets"
    if "tilesets" in p:
        return "tilesets"
    if "chunks" in p:
        return "chunks"
    if "$cells" in p:
        return "data"
    if "layers" in p:
        if strs[-1] in ("layers", "kind", "name", "id"):
            return "tree"
        return "layer"
    return "map"


def show(d, n=6):
    return "\n".join(f"  {'/'.join(map(str, p))}: expected {str(e)[:300]!r}, got {str(g)[:300]!r}"
                     for p, e, g in d[:n])
