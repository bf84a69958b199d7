"""C29: a parse that is broken off goes out as it came and leaves nothing behind."""
import gc
import json
import os
import signal

from .. import anything, interrupt, monitor, project
from ..base import Outcome, explain
from ..common import api, gen

ISOLATE = True  # every case starts as a process does after import
CASES = {"quick": 4000, "thorough": 60000}
RULE = ("A case is 1-3 documents of any kind.  A child process counts the lines of the package each parse executes and reports its result; the "
        "case's own process then breaks parses off, 1-8 (in a few cases 60-200) times in a row, by an exception raised at a random one of these lines "
        "(KeyboardInterrupt, an exception of the program's own derived from BaseException, MemoryError).  The very exception must reach the caller; once it is dropped "
        "nothing is open; settings of the process are as before; the next parse of each document gives what the child saw, in time "
        "(40 s); results obtained before stay as they were.  Half of the cases break off the first parse of the process.  Lines where Python itself cannot "
        "be broken off cleanly (leaving `with`, `finally`, `except`) are spared.  Distinct: distinct places and documents.")
REQUIRED = {"cases of many parses broken off": 60, "parses broken off": 12000, "places: distinct lines per case": 8000, "parses after breaking off": 6000, "cases begun cold": 1500,
            "broken off by KeyboardInterrupt": 3000, "broken off by MemoryError": 3000, "broken off by Stop": 3000,
            "broken off in template code": 300}


class Stop(BaseException):
    """An exception of the program, as its signal handlers and time limits raise."""


class Hang(BaseException):
    pass


def attempt(fn, arg):
    """Every exception counts, KeyboardInterrupt included."""
    try:
        return Outcome(fn(arg))
    except BaseException as e:  # noqa: the verdict needs every exception
        return Outcome(exc=e)


def solo(jobs):
    """What each job gives in a process of its own: (lines, shown result)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            out = []
            for fn, p in jobs:
                with interrupt.Break() as b:
                    o = attempt(fn, p)
                out.append([b.lines, shown(o)])
            with os.fdopen(w, "w") as f:
                json.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    os.waitpid(pid, 0)
    return json.loads(text)


def shown(o):
    # Through JSON, so that what a child reports and what is seen here are one kind of thing
    return json.loads(json.dumps(["ok", plain(project.any_(o.value))] if o.ok else ["raised", explain(o.exc)]))


def plain(v):
    if isinstance(v, dict):
        return {"dict": [[plain(k), plain(x)] for k, x in v.items()]}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v if v is None or isinstance(v, (bool, int, float, str)) else repr(v)


def in_time(fn, arg):
    def late(*_):
        raise Hang

    old = signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, 40)
    try:
        return attempt(fn, arg)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def case(ctx, r, i):
    g = gen(r)
    jobs, texts = [], []
    for k in range(g.pick([1, 1, 2, 3])):
        kind, fmt, fn, p, docs = anything.document(g, r, ctx.fresh(f"p{k}"), g.pick([None, "templates"]))
        jobs.append((getattr(api(), fn), p))
        texts.append(docs)
        ctx.count(f"documents: {kind} ({fmt})")
    want = solo(jobs)
    for (fn, p), (lines, res) in zip(jobs, want):
        if res[0] != "ok":
            ctx.fail(f"{fn.__name__} of {os.path.relpath(p, ctx.dir)}, a valid document, raised {res[1]}")
    held = []
    if g.p(0.5):
        held = [(k, attempt(*jobs[k])) for k in range(len(jobs))]
    else:
        ctx.count("cases begun cold")
    before, fds = monitor.state(), monitor.fds()
    places = []
    many = g.p(0.03)
    same = g.r.random() if many and g.p(0.5) else None
    ctx.count("cases of many parses broken off", many)
    for _ in range(g.n(60, 200) if many else g.pick([1, 1, 2, 4, 8])):
        k = g.n(0, len(jobs) - 1)
        fn, p = jobs[k]
        lines = want[k][0]
        # The first and the last lines are few among the many
        nth = 1 + int(same * lines) if same is not None else g.pick([g.n(1, lines), g.n(1, lines), min(lines, g.n(1, 40)), max(1, lines - g.n(0, 60))])
        exc = g.pick([KeyboardInterrupt, Stop, MemoryError])("broken off")
        with interrupt.Break(nth, exc) as b:
            o = in_time(fn, p)
        ctx.evaluated()
        name = f"{fn.__name__} of {os.path.relpath(p, ctx.dir)}, broken off by {type(exc).__name__} at line {nth} of {lines}, {b.where}"
        if b.where is None and not isinstance(o.exc, Hang):
            # Fewer lines than alone: something was remembered from an earlier parse
            ctx.count("parses that ended before")
            if shown(o) != want[k][1]:
                ctx.fail(f"{name}: not reached, yet the result differs from the parse alone: {str(shown(o))[:300]}")
            continue
        if isinstance(o.exc, Hang):
            ctx.fail(f"{name}: does not end, after parses broken off at {places[-5:]}")
        if o.ok:
            ctx.fail(f"{name}: the exception was swallowed and a result returned")
        if o.exc is not exc:
            ctx.fail(f"{name}: came out as {explain(o.exc)}")
        places.append(b.where)
        ctx.count("parses broken off")
        ctx.count(f"broken off by {type(exc).__name__}")
        ctx.count("broken off in template code", "util" in b.where)
        exc.__traceback__ = exc.__context__ = exc.__cause__ = None
        del o, exc, b
    ctx.count("places: distinct lines per case", len(set(places)))
    gc.collect()
    left = {n: x for n, x in monitor.fds().items() if fds.get(n) != x and x.startswith(os.path.realpath(ctx.dir))}
    if left:
        ctx.fail(f"left open after parses broken off at {places[-8:]}: {sorted(left.values())[:4]}")
    changed = monitor.state_changes(before, monitor.state())
    if changed:
        ctx.fail(f"after parses broken off at {places[-8:]}: " + "; ".join(changed[:4]))
    order = list(range(len(jobs)))
    r.shuffle(order)
    for k in order:
        fn, p = jobs[k]
        o = in_time(fn, p)
        ctx.evaluated()
        ctx.count("parses after breaking off")
        if isinstance(o.exc, Hang):
            ctx.fail(f"{fn.__name__} of {os.path.relpath(p, ctx.dir)} does not end after parses broken off at {places[-8:]}")
        got = shown(o)
        if got != want[k][1]:
            d = project.diff(want[k][1], got)
            ctx.fail(f"{fn.__name__} of {os.path.relpath(p, ctx.dir)} after parses broken off at {places[-8:]} differs from the parse alone:\n"
                     + project.show(d))
    for k, o in held:
        if shown(o) != want[k][1]:
            ctx.fail(f"an earlier result changed by parses broken off at {places[-8:]}")
        ctx.count("earlier results compared")
    ctx.distinct([texts, places])
    ctx.sample(f"{[os.path.relpath(str(p), ctx.dir) for _, p in jobs]}: broken off at {places[-8:]}")
