"""C18: parses in several threads do not affect each other."""
import os

from .. import project, project_files, sched, worlds
from ..base import explain, guarded
from ..common import api, gen, path, styles, templated_map

ISOLATE = True  # every case starts cold, as the process does after import
CASES = {"quick": 2200, "thorough": 50000}
RULE = ("A case runs 2-4 threads with 1-3 parses each (maps of both formats with shared tilesets and templates, the "
        "same map or different ones, a tileset, a world, damaged documents) under a seeded scheduler that "
        "decides at every line (a quarter of the cases: every opcode) of the package which thread goes on, with "
        "random, bursty, lock-step and priority policies; one case in twelve is a free-running stress; each case starts in a fresh process image, half of them without any earlier parse. The oracle is each "
        "parse's own result or exception when run alone.  Distinct: distinct sequences of switches.")
REQUIRED = {"parses compared": 3000, "scheduling decisions": 300000, "switches": 50000, "failing parses compared": 200,
            "scheduled cases": 900, "stress cases": 60}
ASSUMES = ["switches are made at lines and opcodes of the package only, not inside the standard library"]


def outcome(fn, arg):
    o = guarded(fn, arg)
    if o.exc is not None:
        o.exc.__traceback__ = None
    return view(o)


def view(o):
    if o.ok:
        v = project.any_(o.value)
        return ("ok", v)
    return ("raised", type(o.exc).__name__, str(o.exc))




def build(ctx, g, r):
    """Jobs: (function, path) pairs to choose from."""
    root = ctx.fresh("p")
    pool = []
    fmts = g.pick([["tmx", "tmx"], ["json", "json"], ["tmx", "json"]])
    for k, fmt in enumerate(fmts):
        m, tps, new = templated_map(g, fmt, declared=g.pick([0, 1, 2]), undeclared=g.pick([0, 1]),
                                    instances=g.pick([1, 3]), rich=True, ts_rich=g.p(0.5))
        m["layers"] = m["layers"][:4]
        p, docs = project_files.materialise(root, m, fmt, f"{k}/{g.rel_dirs()}/map.{fmt}", styles(r, 0.4))
        pool += [(api().parse_map, path(p))] * 3
        if g.p(0.5):
            bad = p + ".bad"
            with open(p, "rb") as f:
                data = f.read()
            with open(bad, "wb") as f:
                f.write(data[:g.n(0, len(data) - 3)])
            pool.append((api().parse_map, path(bad)))
    fmt = g.pick(["tmx", "json"])
    p = project_files.write(root, "t." + fmt, project_files.doc_tileset(g.tileset("t"), fmt, styles(r)()))
    pool.append((api().parse_tileset, path(p)))
    w, entries = worlds.make(g)
    p = worlds.write(root, "worlds/w.world", w, entries, styles(r)(), g)
    pool.append((api().parse_world, path(p)))
    pool.append((api().parse_map, path(os.path.join(root, "no such map.tmx"))))
    return pool


def case(ctx, r, i):
    g = gen(r)
    pool = build(ctx, g, r)
    stress = i % 12 == 5
    n = g.pick([2, 2, 2, 3, 4]) if not stress else 6
    jobs = [[g.pick(pool) for _ in range(g.pick([1, 1, 2, 3]) if not stress else 4)] for _ in range(n)]
    if g.p(0.3):
        jobs = [[jobs[0][0]] for _ in range(n)]
    alone = {}

    def run_alone():
        for js in jobs:
            for j in js:
                if j not in alone:
                    alone[j] = outcome(*j)

    cold = g.p(0.5)
    if not cold:
        run_alone()
    if stress:
        results = sched.stress(jobs)
        ctx.count("stress cases")
        what = "free-running"
    else:
        policy = g.pick([("random", g.pick([0.02, 0.1, 0.5])), ("burst", g.pick([3, 30, 200])),
                         ("lockstep",), ("pct", g.pick([1, 2, 4, 8]), g.pick([200, 1000, 4000]))])
        opcodes = g.p(0.25)
        b = sched.Baton(jobs, r, policy, opcodes)
        results = b.run()
        ctx.count("scheduled cases")
        ctx.count("scheduled by opcode", opcodes)
        ctx.count("policy " + policy[0])
        ctx.count("scheduling decisions", b.events)
        ctx.count("switches", b.switches)
        ctx.count("cases set free because threads waited for each other", b.free)
        if b.switches:
            ctx.distinct(b.trace.digest())
        what = f"policy {policy}, {b.switches} switches"
    if cold:
        run_alone()
        ctx.count("cases whose first parses are concurrent")
    for k, js in enumerate(jobs):
        if len(results[k]) != len(js):
            ctx.fail(f"thread {k} made {len(results[k])} of {len(js)} parses ({what})")
        for j, o in zip(js, results[k]):
            ctx.evaluated()
            got, want = view(o), alone[j]
            ctx.count("parses compared")
            ctx.count("failing parses compared", want[0] != "ok")
            if got == want:
                continue
            name = f"{j[0].__name__} of {os.path.relpath(j[1], ctx.dir)} in one of {n} threads ({what})"
            if got[0] != want[0] or got[0] == "raised":
                detail = explain(o.exc) if not o.ok else "a result"
                ctx.fail(f"{name}: alone {want[0]} {want[1] if want[0] == 'raised' else ''}, now {detail}")
            ctx.fail(f"{name} differs from the parse alone:\n" + project.show(project.diff(want[1], got[1])))
    ctx.sample(f"{n} threads: {[[os.path.relpath(str(j[1]), ctx.dir) for j in js] for js in jobs]}; {what}")
