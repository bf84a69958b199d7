"""C08: terrain data is complete."""
from .. import expect, project, project_files
from ..base import explain, guarded
from ..common import api, check_own, gen, parse_and_diff, path, place, style, styles

CASES = {"quick": 14400, "thorough": 100000}
RULE = ("A case is a tileset (embedded, external in either format, or standalone) with 0-4 wang sets of "
        "0-15 colours and 0-20 wang tiles with every subset of optional attributes.  The oracle is the "
        "model's wang sets, in order.  Cases are distinct if their documents are.")
REQUIRED = {"wang sets compared": 1200, "wang colours compared": 2000, "wang tiles compared": 3000}


def case(ctx, r, i):
    g = gen(r, i)
    fmt = g.pick(["tmx", "json"])
    t = g.tileset("terrain", rich=False, wang=0, props=0, tiles=[2] if g.p(0.2) else [])
    t["wangsets"] = [g.wang_set() for _ in range(g.many(g.pick([0, 1, 1, 2, 4]), 60))]
    for w in t["wangsets"]:
        ctx.count("wang sets compared")
        ctx.count("wang colours compared", len(w["colors"]))
        ctx.count("wang tiles compared", len(w["tiles"]))
    if g.p(0.35):
        root = ctx.fresh("p")
        text = project_files.doc_tileset(t, fmt, style(r))
        p = project_files.write(root, "a.tsj", text)
        o = guarded(api().parse_tileset, path(p))
        ctx.evaluated()
        if not o.ok:
            ctx.fail(f"{fmt} tileset did not parse: {explain(o.exc)}")
        diffs = project.diff(expect.tileset(t, 1, None, fmt), project.any_(o.value))
        docs = text
    else:
        m = g.map([], g.place_tilesets([t, g.tileset("other", rich=False, wang=0.5)]), infinite=False,
                  rich=False)
        rel = place(g, m, fmt, 0.5)
        diffs, docs, _, got = parse_and_diff(ctx, m, fmt, rel, styles(r))
        text = docs[rel]
    wang = [d for d in diffs if "wang_sets" in d[0]]
    if wang:
        ctx.fail("terrain data:\n" + project.show(wang))
    ctx.distinct(docs)
    ctx.sample(text, 1500)
