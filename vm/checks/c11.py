"""C11: every gid resolves to its intended tile, template tilesets included."""
from .. import expect, project
from ..common import gen, parse_and_diff, styles, templated_map

CASES = {"quick": 12000, "thorough": 120000}
RULE = ("A case is one map with 0-3 declared tilesets (sparse image collections, gaps between ranges, any "
        "order, embedded or external in either format), 0-2 tilesets that only templates bring in, and "
        "1-6 instances of tile templates and others at random depths, flips and overridden gids included. "
        "The monitor resolves each tile object's gid through the parsed tileset table and compares tileset "
        "and local id with the author's; it checks keys, completeness, disjoint ranges and that no raw "
        "tileset data is left.  Cases are distinct if their documents are.")
REQUIRED = {"maps compared": 1500, "template gids resolved": 2000, "maps with undeclared tilesets": 500,
            "maps that declare no tileset": 150, "gids of tile instances in groups": 100,
            "maps whose tilesets share a name": 150}


def in_groups(layers, inside=False):
    for l in layers:
        if l["kind"] == "LayerGroup":
            yield from in_groups(l["layers"], True)
        elif l["kind"] == "ObjectLayer" and inside:
            yield from l["objects"]


def case(ctx, r, i):
    g = gen(r, i)
    fmt = g.pick(["tmx", "json"])
    m, tps, new = templated_map(g, fmt)
    rel = f"{g.rel_dirs()}/{g.stem("map")}.{fmt}"
    diffs, docs, _, got = parse_and_diff(ctx, m, fmt, rel, styles(r))
    mine = [d for d in diffs if d[0][0] == "tilesets" and (
        len(d[0]) <= 2 or d[0][2] in ("key", "range", "firstgid", "name")) or d[0][-1] in ("gid", "raw")]
    if mine:
        ctx.fail("gids and tileset table:\n" + project.show(mine))
    ctx.count("maps compared")
    tiles = [o for o in expect.objects_of(m["layers"]) if "template" in o and o["template"]["tileset"]]
    ctx.count("template gids resolved", len(tiles))
    ctx.count("overridden gids", sum("gid" in o for o in tiles))
    ctx.count("gids of tile instances in groups", sum("template" in o and o["template"]["tileset"] is not None
                                                      for o in in_groups(m["layers"])))
    ctx.count("maps with undeclared tilesets", any(o["template"]["tileset"] in new for o in tiles))
    ctx.count("maps that declare no tileset", not m["tilesets"])
    used = m["tilesets"] + new
    ctx.count("maps whose tilesets share a name", len(used) > len({t["name"] for t in used}))
    ctx.distinct(docs)
    ctx.sample("\n".join(docs.values()))
