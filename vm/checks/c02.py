"""C02: infinite maps keep every chunk, in place and with its own shape."""
from ..common import check_own, gen, parse_and_diff, place, styles
from .c01 import nest, tile_layers

ZSTUB = True
CASES = {"quick": 12600, "thorough": 120000}
RULE = ("A case is one infinite map in one format with 1-4 tile layers at random depths, each with 0-12 "
        "chunks of shapes different from each other and from the layer's, at positions over all signs, in "
        "every encoding.  The oracle is the list of chunks the writer encoded, in order.  Cases are "
        "distinct if their documents are.")
REQUIRED = {"chunks compared": 1000, "layers without chunks": 50, "chunks at negative positions": 100}
ASSUMES = ["zstd is driven through a stand-in module with its own frame format"]


def case(ctx, r, i):
    g = gen(r, i)
    fmt = g.pick(["tmx", "json"])
    layers = []
    for _ in range(g.pick([1, 1, 2, 4])):
        l = g.tile_layer(True, rich=False)
        if g.p(0.15):
            l["chunks"] = [g.chunk() for _ in range(g.many(g.n(6, 12)))]
        layers.append(nest(g, l, g.pick([0, 0, 1, 2, 4])))
    m = g.map(layers, [], infinite=True, rich=False)
    rel = place(g, m, fmt)
    diffs, docs, _, got = parse_and_diff(ctx, m, fmt, rel, styles(r, zstd=True))
    check_own(ctx, diffs, ("chunks", "data"), "chunks of a tile layer")
    for l in tile_layers(m["layers"]):
        ctx.count("layers compared")
        ctx.count("chunks compared", len(l["chunks"]))
        ctx.count("layers without chunks", not l["chunks"])
        for c in l["chunks"]:
            ctx.count("chunks at negative positions", c["x"] < 0 or c["y"] < 0)
            ctx.count("chunk cells compared", c["width"] * c["height"])
    ctx.distinct(docs)
    ctx.sample(docs[rel])
