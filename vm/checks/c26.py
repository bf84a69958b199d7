"""C26: everything in a result has its declared type."""
from .. import anything, typed
from ..base import explain, guarded
from ..common import api, gen

CASES = {"quick": 9000, "thorough": 100000}
RULE = ("A case is one document of any kind (maps of both formats, finite and infinite, with embedded and external tilesets of both "
        "formats, templates, worlds, tilesets on their own, modern and older spellings, rich and bare).  The monitor walks the whole "
        "result and compares the type of every field of every object, every list element, every key and value with a table written "
        "from the documentation: exact bool, int, str, list and dict, int or float where a float is declared, Path, Color with parts "
        "0-255, the concrete layer and object classes, no undeclared attributes.  Distinct: distinct documents.")
CLASSES = ["TiledMap", "Tileset", "World", "WorldMap", "TileLayer", "ObjectLayer", "ImageLayer", "LayerGroup", "Chunk", "Ellipse", "Point",
           "Polygon", "Polyline", "Rectangle", "Text", "Tile", "Frame", "Grid", "Transformations", "WangTile", "WangColor", "WangSet", "Color",
           "Size", "OrderedPair"]
REQUIRED = {"fields checked": 200000, **{"class " + c: 100 for c in CLASSES},
            **{"property of type " + t: 100 for t in ("str", "int", "float", "bool", "Color")}}


def case(ctx, r, i):
    g = gen(r, i, 100)
    kind, fmt, fn, p, docs = anything.document(g, r, ctx.fresh("p"))
    o = guarded(getattr(api(), fn), p)
    ctx.evaluated()
    if not o.ok:
        ctx.fail(f"{fn} of a valid {fmt} document raised: {explain(o.exc)}")
    seen = {}
    bad = typed.wrong(fn, o.value, seen)
    if bad:
        ctx.fail(f"{fn} of a {fmt} document ({kind}): {bad}")
    ctx.count(f"results: {kind} ({fmt})")
    for k, n in seen.items():
        ctx.count(k, n)
        if ":" in k:
            ctx.count("fields checked", n)
    ctx.distinct(docs)
    ctx.sample(str(docs))


def finish(tot):
    """The field counts go into one entry."""
    c = tot["counts"]
    fields = sorted(k for k in c if ": " in k and "." in k.split(":")[0])
    tot["notes"]["types seen per field"] = {k: c.pop(k) for k in fields}
