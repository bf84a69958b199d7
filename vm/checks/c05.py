"""C05: every object keeps its kind, geometry, text settings and order."""
from ..common import check_own, gen, parse_and_diff, place, styles
from ..expect import objects_of

CASES = {"quick": 16800, "thorough": 120000}
RULE = ("A case is one map in one format with object layers at random depths (0-40 objects of every kind, "
        "each storing a random subset of its optional attributes, random geometry, 1-200 points, text with "
        "every setting, gids over all 32 bits) and tile collision shapes.  The oracle is the model's list "
        "of objects.  Cases are distinct if their documents are.")
REQUIRED = {"objects compared": 4000, "points compared": 3000, "text objects": 300, "tile objects": 300,
            "collision shapes": 200}


def case(ctx, r, i):
    g = gen(r, i)
    fmt = g.pick(["tmx", "json"])
    layers = []
    for _ in range(g.pick([1, 1, 2, 3])):
        kinds = g.pick([None, None, [g.pick(g.KINDS)]])
        n = g.many(g.pick([0, 1, 3, 6, 40 if g.p(0.1) else 8]), 600)
        objs = [g.object(kinds, props=0.05) for _ in range(n)]
        if objs and g.p(0.05):
            k = g.pick(["Polygon", "Polyline"])
            o = {"id": 5, "x": 0, "y": 0, "kind": k, "points": [(g.num(), g.num()) for _ in range(200)]}
            objs.insert(g.n(0, len(objs)), o)
        l = g.object_layer(rich=False, objs=objs)
        for _ in range(g.pick([0, 0, 1, 3])):
            l = g.group([l], rich=False)
        layers.append(l)
    ts = []
    if g.p(0.5):
        t = g.tileset("shapes", rich=False, wang=0, tiles=[3, 1])
        for x in t["tiles"]:
            x["objectgroup"] = g.object_layer(rich=False, gids=False)
        ts.append(t)
    m = g.map(layers, g.place_tilesets(ts), infinite=False, rich=False)
    rel = place(g, m, fmt)
    diffs, docs, _, got = parse_and_diff(ctx, m, fmt, rel, styles(r))
    check_own(ctx, diffs, ("objects",), "objects")
    for o in list(objects_of(layers)) + [o for t in ts for x in t["tiles"] for o in x["objectgroup"]["objects"]]:
        ctx.count("objects compared")
        ctx.count("objects compared: " + o["kind"])
        ctx.count("points compared", len(o.get("points", ())))
        ctx.count("text objects", o["kind"] == "Text")
        ctx.count("tile objects", o["kind"] == "Tile")
    ctx.count("collision shapes", sum(len(x["objectgroup"]["objects"]) for t in ts for x in t["tiles"]))
    ctx.distinct(docs)
    ctx.sample(docs[rel])
