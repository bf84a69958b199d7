"""C03: the layer tree mirrors the document."""
from ..common import check_own, gen, parse_and_diff, place, styles

CASES = {"quick": 16800, "thorough": 120000}
RULE = ("A case is one map in one format whose layers are a random ordered forest of tile, object, image "
        "and group layers (depth up to 8, duplicate and empty names, equal ids), with embedded and "
        "external tilesets whose tiles carry collision shapes and with unknown elements that contain "
        "layer look-alikes.  The oracle is the model's forest: kind, name, id, position and parent of "
        "every layer.  Cases are distinct if their documents are.")
REQUIRED = {"layers compared": 3000, "groups": 500, "tilesets with collision shapes": 100}


def walk(layers, depth=0):
    for l in layers:
        yield l, depth
        if l["kind"] == "LayerGroup":
            yield from walk(l["layers"], depth + 1)


def case(ctx, r, i):
    g = gen(r, i)
    fmt = g.pick(["tmx", "json"])
    inf = g.p(0.2)
    depth = g.pick([0, 1, 2, 3, 3, 4])
    layers = g.forest(inf, depth, g.pick([2, 4, 6]) if depth < 4 else 2, rich=False, objs=g.p(0.3))
    if g.p(0.3):  # same names and ids throughout
        for l, _ in walk(layers):
            l["name"] = "same"
            if g.p(0.5):
                l["id"] = 1
    if g.p(0.1):
        for _ in range(g.n(3, 8) if g.p(0.95) else g.n(20, 60)):
            layers = [g.group(layers, rich=False)]
    ts = []
    for _ in range(g.pick([0, 1, 1, 2])):
        t = g.tileset(f"ts{len(ts)}", rich=False, wang=0, tiles=r.sample(range(20), 2))
        if g.p(0.7):
            for x in t["tiles"]:
                x["objectgroup"] = g.object_layer(rich=False, gids=False)
            ctx.count("tilesets with collision shapes")
        ts.append(t)
    m = g.map(layers, g.place_tilesets(ts), infinite=inf, rich=False)
    rel = place(g, m, fmt, 0.3)
    diffs, docs, _, got = parse_and_diff(ctx, m, fmt, rel, styles(r, unknown=g.pick([0, 0.3])))
    check_own(ctx, diffs, ("tree",), "layer tree")
    for l, d in walk(layers):
        ctx.count("layers compared")
        ctx.count("groups", l["kind"] == "LayerGroup")
        ctx.notes["deepest nesting"] = max(d, ctx.notes.get("deepest nesting", 0))
    ctx.distinct(docs)
    ctx.sample(docs[rel])
