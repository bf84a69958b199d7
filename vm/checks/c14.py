"""C14: a world lists exactly its maps, placed and sized as declared."""
import os

from .. import monitor, worlds
from ..base import explain, guarded
from ..common import api, gen, path, style

CASES = {"quick": 20000, "thorough": 150000}
RULE = ("A case is one world file with 0-8 listed maps and 0-3 patterns of twelve families (anchored, "
        "unanchored, with flags, look-aheads, extra and optional groups, signs, fractions), in a directory "
        "with matching, nearly matching and other names, some of them directories, pipes, dangling links or links to "
        "directories, given by an absolute or relative path from some working directory.  The oracle matches "
        "names from the first character and computes positions itself; the audit hook watches what is opened. "
        "Cases are distinct if their documents and directories are.")
REQUIRED = {"listed maps compared": 2000, "pattern entries compared": 2000, "worlds with patterns": 800,
            "entries that are no regular files": 300, "names that nearly match": 300, "files opened": 1000}


def case(ctx, r, i):
    g = gen(r, i)
    w, entries = worlds.make(g)
    root = ctx.fresh("w")
    d = g.rel_dirs()
    p = worlds.write(root, f"{d}/{g.pick(['world.world', 'a b.world', 'ö.json', 'w', 'map_3_4.tmx'])}", w, entries, style(r), g)
    wd = os.path.dirname(p)
    if g.p(0.2):
        try:
            with open(os.path.join(os.fsencode(wd), b"map_1_1.tmx\xff"), "wb"):
                entries["map_1_1.tmx\udcff"] = "file"
        except OSError:
            pass
    cwd = g.pick([root, wd, os.path.dirname(wd)])
    os.chdir(cwd)
    given = p if g.p(0.5) else os.path.relpath(p, cwd)
    with monitor.IO() as io:
        o = guarded(api().parse_world, path(given))
    ctx.evaluated()
    if not o.ok:
        ctx.fail(f"world {given} did not parse: {explain(o.exc)}")
    out = worlds.differences(w, wd, o.value)
    opened = [x for x in io.reads if os.path.realpath(x) != os.path.realpath(p)]
    if opened:
        out.append(f"opened {opened[:3]}")
    if out:
        ctx.fail(f"world {given} from {cwd}: " + "; ".join(out))
    ctx.count("files opened", len(io.reads))
    explicit, found = worlds.expected(w, wd)
    ctx.count("listed maps compared", len(explicit))
    ctx.count("pattern entries compared", len(found))
    ctx.count("worlds with patterns", bool(w.get("patterns")))
    ctx.count("worlds given by a relative path", given != p)
    ctx.count("entries that are no regular files", sum(k != "file" for k in entries.values()))
    hit = {os.path.basename(f[0]) for f in found}
    ctx.count("names that nearly match", sum(n not in hit for n in entries))
    with open(p, encoding="utf-8") as f:
        body = f.read()
    ctx.distinct(body, sorted(entries.items()))
    ctx.sample(body + "\n" + str(entries))
