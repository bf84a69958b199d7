"""C04: every layer attribute has its stored value or its documented default."""
from ..common import check_own, gen, parse_and_diff, place, styles
from .c03 import walk

CASES = {"quick": 16800, "thorough": 120000}
RULE = ("A case is one map in one format with a random forest of layers of every kind, each storing a "
        "random subset of its optional attributes with random values (zero, negative, fractional, tiny, "
        "huge, empty, all of Unicode).  The oracle is the stored value or the documented default of each "
        "attribute.  Cases are distinct if their documents are.")
REQUIRED = {"layers compared": 3000, "attributes stored": 5000, "attributes left to their default": 5000}
OPT = ("id", "class", "opacity", "visible", "offsetx", "offsety", "parallaxx", "parallaxy", "tintcolor",
       "repeatx", "repeaty", "draworder", "transparentcolor", "start")


def case(ctx, r, i):
    g = gen(r, i)
    fmt = g.pick(["tmx", "json"])
    inf = g.p(0.3)
    layers = g.forest(inf, g.pick([0, 1, 2, 3]), 4, objs=False)
    m = g.map(layers, [], infinite=inf, rich=False)
    rel = place(g, m, fmt)
    diffs, docs, _, got = parse_and_diff(ctx, m, fmt, rel, styles(r))
    check_own(ctx, diffs, ("layer", "tree"), "layer attributes")
    for l, d in walk(layers):
        ctx.count("layers compared")
        ctx.count("layers compared: " + l["kind"])
        n = sum(k in l for k in OPT)
        ctx.count("attributes stored", n)
        ctx.count("attributes left to their default", len(OPT) - n)
        for k in OPT:
            if k in l and not l[k]:
                ctx.count("stored zero, false or empty values")
    ctx.distinct(docs)
    ctx.sample(docs[rel])
