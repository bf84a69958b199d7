"""C01: every tile layer of a finite map is exactly the stored grid."""
from ..common import check_own, gen, parse_and_diff, place, styles

ZSTUB = True
CASES = {"quick": 8400, "thorough": 120000}
RULE = ("A case is one finite map in one format with 1-4 tile layers at random nesting depths, random "
        "grids (1xN, Nx1, up to 300 wide; a few with 65 thousand to 270 thousand cells), ids over all 32 bits, and per "
        "layer one of the encodings XML elements, CSV or number array, base64 plain, zlib, gzip (all "
        "levels, several members) and, through a stand-in decoder, zstd, in a random layout.  The oracle "
        "is the grid the writer encoded.  Every case has at least one grid; cases are distinct if their documents are.")
REQUIRED = {"grids compared": 500, "cells compared": 20000, "ids of 2^31 and above": 1000}
ASSUMES = ["zstd is driven through a stand-in module with its own frame format"]


def nest(g, layer, depth):
    for _ in range(depth):
        layer = g.group(g.forest(False, 0, 1, ["image", "object"], rich=False, objs=False)
                        + [layer] if g.p(0.3) else [layer], rich=False)
    return layer


def tile_layers(layers):
    for l in layers:
        if l["kind"] == "TileLayer":
            yield l
        elif l["kind"] == "LayerGroup":
            yield from tile_layers(l["layers"])


def case(ctx, r, i):
    g = gen(r, i)
    fmt = g.pick(["tmx", "json"])
    layers = []
    huge = i % 100 == 7
    for _ in range(1 if huge else g.many(g.pick([1, 1, 2, 4]), 60)):
        dims = g.pick([(300, 260), (70000, 1), (1, 66000), (1000, 80), (110000, 1), (530, 510)]) if huge else (
            g.pick([(g.many(3, 5000), 2), (2, g.many(3, 5000))])) if g.plenty else None
        layers.append(nest(g, g.tile_layer(False, big=True, rich=False, dims=dims),
                           g.pick([0, 0, 1, 2, 4])))
    m = g.map(layers, [], infinite=False, rich=False)
    rel = place(g, m, fmt)
    diffs, docs, _, got = parse_and_diff(ctx, m, fmt, rel, styles(r, zstd=True))
    check_own(ctx, diffs, ("data",), "tile layer data")
    for l in tile_layers(m["layers"]):
        ctx.count("grids compared")
        cells = sum(map(len, l["data"]))
        ctx.count("cells compared", cells)
        ctx.count("ids of 2^31 and above", sum(c >= 1 << 31 for row in l["data"] for c in row))
        if l["width"] == 1 or l["height"] == 1:
            ctx.count("single-row or single-column grids")
    ctx.distinct(docs)
    text = docs[rel]
    for e in ('compression="zlib"', 'compression="gzip"', 'compression="zstd"', "<tile ", "csv",
              '"zlib"', '"gzip"', '"zstd"'):
        if e in text:
            ctx.count(f"documents with {e}")
    ctx.sample(text)
