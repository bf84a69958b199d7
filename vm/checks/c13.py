"""C13: paths lead to the right file from anywhere."""
import os

from .. import expect, monitor, project, project_files
from ..base import explain, guarded
from ..common import api, gen, path, spellings, style, styles, templated_map

CASES = {"quick": 7800, "thorough": 80000}
RULE = ("A case is one map with tilesets, templates and templates' tilesets in random directories and formats "
        "(decoy files of the same relative names lie where a wrong base directory would find them), parsed "
        "through several spellings of its path (absolute, relative, with './' and '..' detours) from several "
        "working directories; or one tileset parsed on its own likewise.  The oracle is the author's layout: "
        "which files must be opened (audit hook), where images resolve, what stays as written; and "
        "all spellings must give one result.  Cases are distinct if their documents are.")
REQUIRED = {"parses compared": 4000, "relative spellings": 1000, "external images compared": 500,
            "template tilesets found": 300, "images as written compared": 300, "decoys placed": 1000}


def path_values(v, at=()):
    """Every path in a projected result, with its place."""
    if isinstance(v, list) and len(v) == 2 and v[0] == "path":
        yield at, v[1]
    elif isinstance(v, dict):
        for k, x in v.items():
            yield from path_values(x, at + (k,))
    elif isinstance(v, list):
        for k, x in enumerate(v):
            yield from path_values(x, at + (k,))


def concerns(d):
    """Is a difference about paths, or about which file was found?"""
    where, e, a = d
    return (where[-1] in ("image",) or is_path(e) or is_path(a)
            or (where[0] == "tilesets" and (len(where) <= 2 or where[2:] == ("name",)))
            or (where[-1] == "name" and "objects" in where))


def is_path(v):
    return isinstance(v, list) and len(v) == 2 and v[0] == "path"


def decoys(ctx, g, root, docs, rel):
    """Files of the same relative name below other base directories."""
    home = os.path.dirname(rel)
    dirs = {os.path.dirname(x) for x in docs} | {"else where", "", os.path.dirname(home)}
    for target in docs:
        if target == rel:
            continue
        for base in dirs:
            for other in dirs:
                # what a reference from `base` to the target names when taken from `other`
                p = os.path.normpath(os.path.join(other, os.path.relpath(target, base or ".")))
                if p.startswith("..") or p in docs or os.path.lexists(os.path.join(root, p)) or not g.p(0.5):
                    continue
                if any(os.path.isfile(os.path.join(root, *p.split("/")[:n])) for n in range(1, p.count("/") + 1)):
                    continue
                body = docs[target].replace("declared", "DECOY").replace("template only", "DECOY")
                body = body.replace("tpl-", "DECOY-")
                project_files.write(root, p, body)
                ctx.count("decoys placed")


def standalone(ctx, g, r):
    root = ctx.fresh("t")
    t = g.tileset("own file")
    fmt = g.pick(["tmx", "json"])
    p = project_files.write(root, f"{g.rel_dirs()}/{g.stem("t")}.{g.pick(['tsx', 'json'])}", project_files.doc_tileset(t, fmt, style(r)))
    want = expect.tileset(t, 1, None, fmt)
    first = None
    for cwd, s in spellings(g, root, p):
        os.chdir(cwd)
        o = guarded(api().parse_tileset, path(s))
        os.chdir("/")
        ctx.evaluated()
        if not o.ok:
            ctx.fail(f"{fmt} tileset {s} from {cwd} did not parse: {explain(o.exc)}")
        got = project.any_(o.value)
        mine = [d for d in project.diff(want, got) if is_path(d[1]) or is_path(d[2])]
        if mine:
            ctx.fail(f"paths of tileset {s} from {cwd}:\n" + project.show(mine))
        if first is not None and got != first:
            ctx.fail(f"tileset {s} from {cwd} differs from its parse by absolute path:\n"
                     + project.show(project.diff(first, got)))
        first = got
        ctx.count("parses compared")
        ctx.count("images as written compared", sum(1 for _ in path_values(want)))
        ctx.count("standalone tilesets")
    ctx.distinct(p, want)


def case(ctx, r, i):
    g = gen(r, i, 100)
    if g.p(0.15):
        return standalone(ctx, g, r)
    fmt = g.pick(["tmx", "json"])
    m, tps, new = templated_map(g, fmt, rich=True, ts_rich=True)
    for k, t in enumerate(tps):
        t["object"]["name"] = f"tpl-{k}"
    for o in expect.objects_of(m["layers"]):
        if "template" in o:
            o.pop("name", None)
    m["layers"].insert(g.n(0, len(m["layers"])), g.image_layer())
    root = ctx.fresh("p")
    rel = f"{g.rel_dirs()}/{g.stem("map")}.{fmt}"
    p, docs = project_files.materialise(root, m, fmt, rel, styles(r))
    decoys(ctx, g, root, docs, rel)
    needed = {os.path.join(root, x) for x in docs}
    first = None
    for cwd, s in spellings(g, root, p):
        want = expect.map_(m, root, fmt, s)
        os.chdir(cwd)
        with monitor.IO() as io:
            o = guarded(api().parse_map, path(s))
        os.chdir("/")
        ctx.evaluated()
        if not o.ok:
            ctx.fail(f"{fmt} map {s} from {cwd} did not parse: {explain(o.exc)}")
        read = {os.path.realpath(x) for x in io.reads}
        if read - needed:
            ctx.fail(f"map {s} from {cwd}: opened {sorted(read - needed)[:4]}")
        got = project.any_(o.value)
        mine = [d for d in project.diff_map(want, got) if concerns(d) and d[0] != ("map_file",)]
        if mine:
            ctx.fail(f"map {s} from {cwd}:\n" + project.show(mine))
        got.pop("map_file")
        if first is not None and got != first:
            ctx.fail(f"map {s} from {cwd} differs from its parse by absolute path:\n"
                     + project.show(project.diff(first, got)))
        first = got
        ctx.count("parses compared")
        ctx.count("relative spellings", not s.startswith("/"))
        ctx.count("files opened", len(io.reads))
    for t in m["tilesets"] + new:
        e = expect.placed(t, root, fmt, 1)
        n = sum(1 for _ in path_values({k: v for k, v in e.items()}))
        ctx.count("external images compared" if "ext" in t else "images as written compared", n)
    ctx.count("template tilesets found", sum(t["tileset"] is not None for t in tps))
    ctx.distinct(docs)
    ctx.sample(f"{sorted(docs)} via {s}\n" + docs[rel])
