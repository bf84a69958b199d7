"""C07: tilesets and their tiles carry exactly what their file stores."""
import os

from .. import expect, project, project_files
from ..base import explain, guarded
from ..common import api, check_own, gen, parse_and_diff, path, place, style, styles

CASES = {"quick": 16800, "thorough": 120000}
RULE = ("A case is 1-4 tilesets, embedded in a map, external to it, or parsed on their own, in either "
        "format: every subset of optional attributes, sparse and unordered tile ids, image collections, "
        "sub-rectangles, animations of up to 12 frames and collision shapes.  The oracle is the stored "
        "value or documented default of each attribute.  Cases are distinct if their documents are.")
REQUIRED = {"tilesets compared": 1500, "tiles compared": 2000, "animation frames": 500,
            "standalone tilesets": 200}
OWN = ("tilesets", "objects", "properties")


def tally(ctx, t):
    ctx.count("tilesets compared")
    for x in t.get("tiles", ()):
        ctx.count("tiles compared")
        ctx.count("animation frames", len(x.get("animation", ())))
        ctx.count("collision layers", "objectgroup" in x)
        ctx.count("tiles with an image", "image" in x)


def case(ctx, r, i):
    g = gen(r, i)
    if g.p(0.35):
        t = g.tileset(wang=0.05, props=0.1)
        fmt = g.pick(["tmx", "json"])
        ctx.count("standalone tilesets")
        root = ctx.fresh("p")
        text = project_files.doc_tileset(t, fmt, style(r))
        p = project_files.write(root, "sets/a.tsx", text)
        o = guarded(api().parse_tileset, path(p))
        ctx.evaluated()
        if not o.ok:
            ctx.fail(f"{fmt} tileset did not parse: {explain(o.exc)}")
        diffs = project.diff(expect.tileset(t, 1, None, fmt), project.any_(o.value))
        diffs = [d for d in diffs if project.aspect(d[0]) != "wang"]
        if diffs:
            ctx.fail("standalone tileset:\n" + project.show(diffs))
        tally(ctx, t)
        ctx.distinct(text)
    else:
        fmt = g.pick(["tmx", "json"])
        ts = [g.tileset(f"ts{k} {g.text()}", wang=0.05, props=0.1) for k in range(g.many(g.pick([1, 1, 2, 4]), 60, 0.2))]
        m = g.map([], g.place_tilesets(ts), infinite=False, rich=False)
        rel = place(g, m, fmt, 0.5)
        diffs, docs, _, got = parse_and_diff(ctx, m, fmt, rel, styles(r))
        check_own(ctx, [d for d in diffs if "tilesets" in d[0]], ("tilesets", "objects", "layer", "tree"),
                  "tilesets of a map")
        for t in ts:
            tally(ctx, t)
            ctx.count("external tilesets", "ext" in t)
            ctx.count("tilesets in the other format", "ext" in t and t["ext"]["fmt"] != fmt)
        ctx.distinct(docs)
        text = docs[rel]
    ctx.sample(text)
