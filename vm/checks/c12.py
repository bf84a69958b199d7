"""C12: template instances inherit from the template and override it."""
from .. import project
from ..common import gen, parse_and_diff, styles, templated_map
from ..expect import objects_of

CASES = {"quick": 12000, "thorough": 120000}
RULE = ("A case is one map with 1-3 templates of any kind and 1-12 instances of them at random depths, "
        "each overriding a random subset of name, class (under either name), size, rotation, visibility, "
        "shape, text, gid and properties, falsy values included.  The oracle merges template and instance "
        "in the model.  Cases are distinct if their documents are.")
REQUIRED = {"instances compared": 5000, "overridden values": 5000, "inherited values": 5000,
            "merged property lists": 300, "overridden shapes and texts": 200}
KEYS = ("name", "class", "width", "height", "rotation", "visible", "properties")


def case(ctx, r, i):
    g = gen(r, i)
    fmt = g.pick(["tmx", "json"])
    m, tps, new = templated_map(g, fmt, declared=g.pick([0, 1]), undeclared=g.pick([0, 0, 1]),
                                instances=g.pick([1, 3, 5, 12]))
    rel = f"{g.rel_dirs()}/{g.stem("map")}.{fmt}"
    diffs, docs, _, got = parse_and_diff(ctx, m, fmt, rel, styles(r))
    mine = [d for d in diffs if "objects" in d[0] and "tilesets" not in d[0]]
    if mine:
        ctx.fail("template instances:\n" + project.show(mine))
    for o in objects_of(m["layers"]):
        if "template" not in o:
            continue
        b = o["template"]["object"]
        ctx.count("instances compared")
        ctx.count("instances compared: " + b["kind"])
        ctx.count("overridden values", sum(k in o and k in b for k in KEYS))
        ctx.count("inherited values", sum(k not in o and k in b for k in KEYS))
        ctx.count("merged property lists", bool(o.get("properties")) and bool(b.get("properties")))
        ctx.count("overridden shapes and texts", "points" in o or "text" in o)
        ctx.count("overridden gids", "gid" in o)
    ctx.distinct(docs)
    ctx.sample("\n".join(docs.values()))
