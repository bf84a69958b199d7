"""Steps shared by the checks that parse random documents and compare with the model."""
import os
import random

from . import expect, project, project_files
from .base import explain, guarded
from .gen import Gen, span
from .style import Style


def api():
    import pytiled_parser

    return pytiled_parser


def path(p):
    from pathlib import Path

    return Path(p)


def style(r, level=1.0, **kw):
    """A random spelling; one in four documents is in the plainest spelling."""
    if r.random() < 0.2:
        return Style(None, **kw)
    return Style(random.Random(r.random()), level, **kw)


def styles(r, level=1.0, **kw):
    return lambda: style(r, level, **kw)


def place(g, m, fmt, ext_p=0.4, mixed=True):
    """Decide where the files of a map live; returns the map's relative path."""
    d = g.rel_dirs()
    for i, t in enumerate(m["tilesets"]):
        if g.p(ext_p):
            f = g.pick(["tmx", "json"]) if mixed else fmt
            g.external(t, f"{g.rel_dirs()}/{g.stem(f"ts {i}")}.{'tsx' if f == 'tmx' else 'json'}", f)
    return f"{d}/{g.stem("map")}.{'tmx' if fmt == 'tmx' else 'json'}"


def spellings(g, root, p):
    """Ways to name a file, each with a working directory."""
    wd = os.path.dirname(p)
    empty = os.path.join(root, "else where")
    os.makedirs(empty, exist_ok=True)
    cwds = [root, wd, os.path.dirname(wd), empty, "/"]
    out = [(empty, p)]
    for _ in range(3):
        cwd = g.pick(cwds)
        k = g.r.randrange(5)
        rel = os.path.relpath(p, cwd)
        if k == 0:
            s = p
        elif k == 1:
            s = rel
        elif k == 2:
            s = "./" + rel
        elif k == 3:
            s = os.path.join(wd, "..", os.path.basename(wd), os.path.basename(p))
        else:
            b = os.path.relpath(os.path.join(wd, "..", os.path.basename(wd)), cwd)
            s = os.path.join(b, "..", os.path.basename(wd), os.path.basename(p))
        out.append((cwd, s))
    return out


def parse_and_diff(ctx, m, fmt, rel, docs_style, root=None, spelling=None):
    """Write, parse and compare one map.  Returns the list of differences; a parse that
    raises on a valid document breaks the property at hand."""
    root = root or ctx.fresh("p")
    p, docs = project_files.materialise(root, m, fmt, rel, docs_style)
    cwd, given = spelling(root, p) if spelling else ("/", p)
    os.chdir(cwd)
    o = guarded(api().parse_map, path(given))
    os.chdir("/")
    ctx.evaluated()
    if not o.ok:
        ctx.fail(f"{fmt} map {rel} did not parse: {explain(o.exc)}")
    want = expect.map_(m, root, fmt, path(given))
    got = project.any_(o.value)
    return project.diff_map(want, got), docs, o.value, got


def own(diffs, *aspects):
    return [d for d in diffs if project.aspect(d[0]) in aspects]


def check_own(ctx, diffs, aspects, what):
    """Fail on the differences that concern this property; count the others."""
    mine = own(diffs, *aspects)
    if len(mine) < len(diffs):
        ctx.count("differences that concern other properties", len(diffs) - len(mine))
    if mine:
        ctx.fail(f"{what}:\n{project.show(mine)}")


def gen(rng, index=None, every=60):
    """With an index, one case in so many is a document of plenty."""
    return Gen(rng, index is not None and index % every == 13)


def names(tree):
    return os.path.join(*tree)


def scatter(g, layers, objs, width=2):
    """Put objects into object layers at random depths of a layer tree."""
    holders = []

    def find(ls):
        for l in ls:
            if l["kind"] == "ObjectLayer":
                holders.append(l)
            elif l["kind"] == "LayerGroup":
                find(l["layers"])

    find(layers)
    if not holders or g.p(0.5):
        l = g.object_layer(rich=False, objs=[])
        holders.append(l)
        for _ in range(g.pick([0, 0, 1, 2, 4])):
            l = g.group([l], rich=False)
        layers.insert(g.n(0, len(layers)), l)
    for o in objs:
        h = g.pick(holders)
        h["objects"].insert(g.n(0, len(h["objects"])), o)
    return layers


def tileset_gids(g, tilesets):
    """Some gids that refer to real tiles of the tilesets of a map."""
    return [t["firstgid"] + g.local_id(t) + (g.n(0, 15) << 28 if g.p(0.3) else 0)
            for t in tilesets if span(t) for _ in range(2)]


def templated_map(g, fmt, declared=None, undeclared=None, templates=None, instances=None,
                  rich=False, ts_rich=False):
    """A map with template instances: tile templates over declared and undeclared
    tilesets in either format, and templates of the other kinds."""
    ts = []
    for k in range(g.many(g.pick([0, 1, 1, 2, 3]) if declared is None else declared, 80, 0.15)):
        t = g.tileset(f"declared {k}", rich=ts_rich, wang=0.1)
        ts.append(t)
    g.place_tilesets(ts)
    shared = []
    for k, t in enumerate(ts):
        if g.p(0.6):
            f = g.pick(["tmx", "json"])
            g.external(t, f"{g.rel_dirs()}/{g.stem(f"d{k}")}.{'tsx' if f == 'tmx' else 'json'}", f)
            shared.append(t)
    new = []
    for k in range(g.many(g.pick([0, 1, 1, 2]) if undeclared is None else undeclared, 80, 0.2)):
        t = g.tileset(f"template only {k}", rich=ts_rich, wang=0.1)
        f = g.pick(["tmx", "json"])
        g.external(t, f"{g.rel_dirs()}/{g.stem(f"u{k}")}.{'tsx' if f == 'tmx' else 'json'}", f)
        new.append(t)
    if g.p(0.2):
        # Names need not differ
        for k, t in enumerate(ts + new):
            t["name"], t["columns"] = "same", 20 + k
    tps = []
    ext = "tx" if fmt == "tmx" else "tj"
    for k in range(g.many(g.pick([1, 1, 2, 3]) if templates is None else templates, 60, 0.15)):
        pool = [t for t in shared + new if span(t)]
        p = f"{g.rel_dirs()}/{g.stem(f"t{k}")}.{ext}"
        if pool and g.p(0.6):
            tps.append(g.template(p, fmt, "Tile", g.pick(pool)))
        else:
            tps.append(g.template(p, fmt))
    gids = tileset_gids(g, ts)
    n = g.many(g.n(1, 6) if instances is None else instances, 200, 0.2)
    # Many templates want many instances
    n = max(n, 2 * len(tps), 4 * len(new)) if len(tps) > 8 or len(new) > 8 else n
    objs = [g.instance(g.pick(tps), gids) for _ in range(n)]
    objs += [g.object(gids=False, props=0.1) for _ in range(g.n(0, 2))]
    layers = g.forest(False, g.pick([0, 1, 2]), 3, rich=rich, objs=False)
    scatter(g, layers, objs)
    m = g.map(layers, ts, infinite=False, rich=rich)
    return m, tps, new
