"""C10: TMX and JSON renderings of one map parse to the same result."""
import copy

from .. import project, project_files
from ..base import explain, guarded
from ..common import api, gen, path, style, styles, templated_map

ZSTUB = True
CASES = {"quick": 9600, "thorough": 80000}
RULE = ("A case is one random map (layers of every kind, objects, properties, tilesets with terrain, "
        "templates) written once as TMX and once as JSON, each external tileset in a format of its own "
        "choice on either side, in independent random spellings; or one tileset written as TSX and JSON "
        "and parsed on its own.  The oracle is the equality of the two results in everything but the map's "
        "own path.  Cases are distinct if their documents are.")
REQUIRED = {"pairs of maps compared": 1000, "pairs of tilesets compared": 200,
            "tilesets in the other format": 300, "pairs with templates": 200}


def recast(m, fmt, g):
    """The same model with all files in the formats of one side."""
    m = copy.deepcopy(m)
    for t in project_files.externals_of(m):
        f = g.pick(["tmx", "json"])
        t["ext"] = {"path": t["ext"]["path"].rsplit(".", 1)[0] + (".tsx" if f == "tmx" else ".json"), "fmt": f}
    for t in project_files.templates_of(m):
        t["path"] = t["path"].rsplit(".", 1)[0] + (".tx" if fmt == "tmx" else ".json")
        t["fmt"] = fmt
    return m


def strip(l):
    l.pop("start", None)
    for x in l.get("layers", ()):
        strip(x)


def case(ctx, r, i):
    g = gen(r, i)
    root = ctx.fresh("p")
    if g.p(0.15):
        t = g.tileset()
        res = []
        for fmt, name in (("tmx", "a.tsx"), ("json", "a.json")):
            p = project_files.write(root, name, project_files.doc_tileset(t, fmt, style(r)))
            o = guarded(api().parse_tileset, path(p))
            ctx.evaluated()
            if not o.ok:
                ctx.fail(f"{fmt} tileset did not parse: {explain(o.exc)}")
            res.append(project.any_(o.value))
        d = project.diff(res[0], res[1])
        if d:
            ctx.fail("TSX (expected) and JSON (got) tilesets differ:\n" + project.show(d))
        ctx.count("pairs of tilesets compared")
        ctx.distinct(open(p).read())
        return
    if g.p(0.4):
        m, tps, new = templated_map(g, "tmx", rich=True, ts_rich=True)
        ctx.count("pairs with templates")
    else:
        inf = g.p(0.3)
        ts = [g.tileset(f"ts{k} {g.text()}") for k in range(g.pick([0, 1, 1, 2]))]
        m = g.map(g.forest(inf, g.pick([0, 1, 2, 3]), 4), g.place_tilesets(ts), infinite=inf)
        for k, t in enumerate(ts):
            if g.p(0.6):
                g.external(t, f"{g.rel_dirs()}/{g.stem(f"ts{k}")}.x", "tmx")
    for l in m["layers"]:
        strip(l)
    d = g.rel_dirs()
    res, keep = [], []
    for fmt in ("tmx", "json"):
        mm = recast(m, fmt, g)
        ctx.count("tilesets in the other format", sum(t["ext"]["fmt"] != fmt for t in project_files.externals_of(mm)))
        p, docs = project_files.materialise(root, mm, fmt, f"{d}/map.{fmt}", styles(r, zstd=g.p(0.2)))
        o = guarded(api().parse_map, path(p))
        ctx.evaluated()
        if not o.ok:
            ctx.fail(f"{fmt} map did not parse: {explain(o.exc)}")
        v = project.any_(o.value)
        v.pop("map_file")
        res.append(v)
        keep.append(docs)
    diffs = project.diff(res[0], res[1])
    if diffs:
        ctx.fail("TMX (expected) and JSON (got) differ:\n" + project.show(diffs))
    ctx.count("pairs of maps compared")
    ctx.distinct(keep)
    ctx.sample("\n".join(keep[0].values()))
