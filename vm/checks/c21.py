"""C21: the result does not depend on the process environment."""
import json
import os
import subprocess
import sys

from .. import base, envchild, expect, project, project_files, worlds
from ..base import explain, guarded
from ..common import api, gen, path, style, templated_map

CASES = {"quick": 160, "thorough": 5000}
RULE = ("A case is six inputs (maps of both formats with tilesets and templates, a tileset, a world, a damaged "
        "map; text over all of Unicode) parsed in one child interpreter whose environment is drawn from: "
        "locale (C, POSIX, C.UTF-8, missing ones, unset), UTF-8 mode, locale coercion, hash seed, time zone, -O/-OO, "
        "warnings as errors (encoding and bytes warnings included), developer mode, debug allocator, isolated mode, working "
        "directory, stdio encoding, HOME/TMPDIR and other variables, closed stdin.  The oracle is the result in the plain environment "
        "of the parent and the model.  Distinct: distinct environments with their documents.")
REQUIRED = {"results compared": 800, "children": 140, "non-UTF-8 locales seen": 25, "optimised children": 25,
            "warnings as errors": 25, "texts beyond ASCII": 400, "worlds of several maps": 30, "decoys in the working directory": 200, "relative paths": 150}


def environment(g):
    env = {"PATH": "/usr/bin:/bin"}
    for k in ("LC_ALL", "LANG", "LC_CTYPE"):
        if g.p(0.5):
            env[k] = g.pick(["C", "POSIX", "C.UTF-8", "C.utf8", "en_US.ISO-8859-1", "de_DE", "ja_JP.eucJP", "", "tr_TR.UTF-8"])
    if g.p(0.45):
        env["LC_ALL"] = g.pick(["C", "POSIX"])
        env["PYTHONCOERCECLOCALE"] = "0"
        env["PYTHONUTF8"] = "0"
    if g.p(0.3):
        env["PYTHONUTF8"] = g.pick(["0", "1"])
    if g.p(0.3):
        env["PYTHONCOERCECLOCALE"] = g.pick(["0", "1"])
    env["PYTHONHASHSEED"] = g.pick(["0", "1", "random", str(g.n(0, 4294967295))])
    if g.p(0.3):
        env["TZ"] = g.pick(["UTC", "Asia/Kolkata", "XXX+5", "", "nonsense"])
    if g.p(0.3):
        env["PYTHONIOENCODING"] = g.pick(["ascii", "latin-1", "utf-16", "cp1252:replace"])
    if g.p(0.2):
        env["PYTHONWARNINGS"] = g.pick(["error", "ignore", "always", "error::DeprecationWarning"])
    if g.p(0.1):
        env["PYTHONMALLOC"] = g.pick(["debug", "malloc"])
    if g.p(0.2):
        env["PYTHONOPTIMIZE"] = g.pick(["1", "2"])
    if g.p(0.2):
        env["PYTHONDEVMODE"] = "1"
    if g.p(0.3):
        env["HOME"] = g.pick(["/nonexistent", "/", "", "."])
    for k in ("DEBUG", "PYTILED_PARSER_DEBUG", "TILED_PATH", "NO_COLOR", "CI", "PYTHONPROFILEIMPORTTIME"):
        if g.p(0.1):
            env[k] = g.pick(["1", "0", "", "/"])
    if g.p(0.3):
        env["TMPDIR"] = "/nonexistent"
    if g.p(0.2):
        env["COLUMNS"] = "1"
    if g.p(0.15):
        env["PYTHONSAFEPATH"] = "1"
    if g.p(0.15):
        env["PYTHONINTMAXSTRDIGITS"] = "640"
    opts = []
    for o, p in (("-O", 0.2), ("-OO", 0.2), ("-Werror", 0.25), ("-b", 0.1), ("-bb", 0.2), ("-E", 0.03), ("-s", 0.1),
                 ("-Xdev", 0.1), ("-Xutf8=0", 0.1), ("-Xutf8=1", 0.05), ("-Xwarn_default_encoding", 0.15),
                 ("-Wdefault", 0.05), ("-Xfrozen_modules=off", 0.05), ("-I", 0.03), ("-Xint_max_str_digits=0", 0.05)):
        if g.p(p):
            opts.append(o)
    return env, opts


def older(r, g, level):
    """Spellings of any age."""
    def make():
        st = style(r, level)
        st.legacy_tiles, st.legacy_version = g.p(0.4), g.p(0.4)
        return st
    return make


def inputs(ctx, g, r):
    """(function, path, expected projection or None)"""
    root = ctx.fresh(g.pick(["p", "p", "~", "~root", "$HOME", "${HOME}", "%HOME%"]))
    out = []
    for k, fmt in enumerate(["tmx", "json", g.pick(["tmx", "json"])]):
        m, tps, new = templated_map(g, fmt, rich=True, ts_rich=True)
        # Only what documents say is at stake: file names are left to the system's own encoding
        for j, t in enumerate(project_files.externals_of(m)):
            t["ext"] = {"path": f"{k}/{g.pick(['ts', 'ts', '~', '$HOME'])}/{j}.x", "fmt": t["ext"]["fmt"]}
            for x in [t] + list(t.get("tiles") or ()):
                if isinstance(x.get("image"), dict):
                    s = x["image"]["source"]
                    x["image"]["source"] = s.encode("ascii", "replace").decode().replace("?", "_")
        for j, t in enumerate(tps):
            t["path"] = f"{k}/{g.pick(['tpl', 'tpl', '~', '$HOME'])}/t{j}.x"
        m["layers"].append(g.object_layer(objs=[g.object(["Text"]) for _ in range(3)]))
        p, docs = project_files.materialise(root, m, fmt, f"{k}/map.{fmt}", older(r, g, 0.5))
        want = expect.map_(m, root, fmt, p)
        out.append(("parse_map", p, lambda v, want=want: project.diff_map(want, v)))
        ctx.count("texts beyond ASCII", sum(not d.isascii() for d in docs.values()))
        if k == 2:
            with open(p + ".cut", "wb") as f:
                f.write(docs[f"{k}/map.{fmt}"].encode()[:-9])
            out.append(("parse_map", p + ".cut", None))
    fmt = g.pick(["tmx", "json"])
    t = g.tileset()
    p = project_files.write(root, "t." + fmt, project_files.doc_tileset(t, fmt, older(r, g, 1.0)()))
    want = expect.tileset(t, 1, None, fmt)
    out.append(("parse_tileset", p, lambda v: project.diff(want, v)))
    w, entries = worlds.make(g)
    entries = {n: k for n, k in entries.items() if n.isascii()}
    if not w.get("patterns"):
        w["patterns"] = [{"regexp": r"map_(\d+)_(\d+)\.tmx", "multiplierX": 3, "multiplierY": 4}]
        entries.update({f"map_{g.n(0, 99)}_{g.n(0, 99)}.tmx": "file" for _ in range(g.pick([0, 3, 12]))})
    for m in w.get("maps", ()):
        m["fileName"] = m["fileName"] if m["fileName"].isascii() else m["fileName"] + "é"
    p = worlds.write(root, "w/w.world", w, entries, style(r), g)
    out.append(("parse_world", p, None))
    return root, out


def decoys(ctx, root, work):
    """Files in the working directory where a parse that forgets the document's directory would look."""
    for d, _, fs in os.walk(root):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), root)
            for name in {f, rel, rel.split(os.sep, 1)[-1]}:
                p = os.path.join(work, name)
                if not os.path.exists(p) and os.path.isdir(os.path.dirname(p)) or not os.path.exists(os.path.dirname(p)):
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, "w") as out:
                        out.write("{}")
                    ctx.count("decoys in the working directory")


def unplain(v):
    if isinstance(v, dict):
        return {k: unplain(x) for k, x in v["dict"]}
    if isinstance(v, list):
        return [unplain(x) for x in v]
    return v


def known(ctx):
    """The image of an external tileset has a name that the file system's encoding cannot spell."""
    root = ctx.fresh("k")
    doc = ('<tileset name="a" tilewidth="1" tileheight="1" tilecount="1" columns="1">'
           '<image source="\u00e9.png" width="1" height="1"/></tileset>')
    project_files.write(root, "a.tsx", doc)
    p = project_files.write(root, "m.tmx", '<map version="1.5" tiledversion="1.5" orientation="orthogonal" renderorder="right-down" width="1" '
                            'height="1" tilewidth="1" tileheight="1" infinite="0" nextlayerid="1" nextobjectid="1">'
                            '<tileset firstgid="1" source="a.tsx"/></map>')
    jobs, answer = os.path.join(root, "jobs"), os.path.join(root, "answer")
    with open(jobs, "w", encoding="ascii") as f:
        json.dump({"jobs": [["parse_map", p]], "answer": answer}, f)
    env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}
    subprocess.run([sys.executable, "-B", envchild.__file__, base.REPO, base.VERIF, jobs], cwd="/", env=env,
                   stdin=subprocess.DEVNULL, capture_output=True, timeout=300)
    with open(answer, encoding="ascii") as f:
        res = json.load(f)["results"][0]
    if guarded(api().parse_map, path(p)).ok and res[:2] == ["raised", "UnicodeEncodeError"]:
        yield "ascii-image-name", f"parse_map: {res}"


def case(ctx, r, i):
    g = gen(r)
    root, ins = inputs(ctx, g, r)
    env, opts = environment(g)
    work = ctx.fresh("w")
    if g.p(0.5):
        decoys(ctx, root, work)
    cwd = g.pick([work, "/", os.path.dirname(ins[0][1]), ctx.dir])
    if g.p(0.3):
        cwd = g.pick([ctx.dir, root])
        ins = [(fn, os.path.relpath(p, cwd), wrong) for fn, p, wrong in ins]
        ctx.count("relative paths", len(ins))
    jobs = os.path.join(work, "jobs.json")
    answer = os.path.join(work, "answer.json")
    with open(jobs, "w", encoding="ascii") as f:
        json.dump({"jobs": [[fn, p] for fn, p, _ in ins], "answer": answer}, f)
    cmd = [sys.executable, "-B"] + opts + [envchild.__file__, base.REPO, base.VERIF, jobs]
    p = subprocess.run(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, capture_output=True, timeout=300)
    label = f"environment {env} {opts} cwd {cwd}"
    if not os.path.exists(answer):
        err = p.stderr.decode("utf-8", "replace").strip().splitlines()
        if any("pytiled_parser" in l for l in err[-12:]):
            ctx.fail(f"{label}: the package cannot be used: {' | '.join(err[-3:])}")
        raise RuntimeError(f"the child failed under {label}: {p.stderr[-800:]!r}")
    with open(answer, encoding="ascii") as f:
        a = json.load(f)
    seen = a["seen"]
    ctx.count("children")
    ctx.count("non-UTF-8 locales seen", seen["fs"] != "utf-8" or seen["enc"].lower() not in ("utf-8", "utf8"))
    ctx.count("optimised children", seen["opt"] > 0)
    ctx.count("warnings as errors", any(w.startswith("error") for w in seen["warn"]))
    ctx.distinct(label, [x[1] for x in ins], i)
    ctx.sample(f"{label}; seen {seen}")
    for (fn, p, wrong), res in zip(ins, a["results"]):
        ctx.evaluated()
        ctx.count("results compared")
        os.chdir(cwd)
        o = guarded(getattr(api(), fn), path(p))
        os.chdir("/")
        name = f"{fn} of {p} under {label}"
        if o.ok != (res[0] == "ok") or (not o.ok and res[1] != type(o.exc).__name__):
            ctx.fail(f"{name}: here {explain(o.exc) if not o.ok else 'ok'}, there {res[:3]!s:.300}")
        if not o.ok and wrong is not None:
            ctx.fail(f"{name}: a valid document raises {explain(o.exc)}")
        if not o.ok:
            ctx.count("failures compared")
            continue
        here, there = project.any_(o.value), unplain(res[1])
        # The entries a pattern finds come in no particular order, but in the same one from the same directory
        ctx.count("worlds of several maps", fn == "parse_world" and len(here["maps"]) > 3)
        d = project.diff(here, there)
        if d:
            ctx.fail(f"{name} differs:\n" + project.show(d))
        if wrong is not None:
            mine = [x for x in wrong(there) if x[0] != ("map_file",)
                    and (isinstance(x[1], str) or (isinstance(x[1], list) and x[1][:1] == ["path"]))]
            if mine:
                ctx.fail(f"{name}: text of the document did not arrive unchanged:\n" + project.show(mine))
