"""C28: however often a program parses, nothing accumulates."""
import ctypes
import gc
import os
import sys
import threading

from .. import anything
from ..base import guarded
from ..common import api, gen

ISOLATE = True  # every case starts as a process does after import
CASES = {"quick": 640, "thorough": 8000}
PLATEAUS = [25, 50, 100, 200]
CONFIRM = [400, 800, 1600]
RULE = ("A case is 1-3 documents of any kind, intact or damaged (cut short, a referred file missing, bytes that are no text), which a fresh "
        "process parses over and over, dropping every result and every exception.  After 25, 50, 100 and 200 rounds and a garbage "
        "collection the monitor reads the bytes in use of the C heap, the blocks of Python's own allocator, the objects alive by the "
        "collector's count, descriptors, threads, modules and garbage that cannot be freed.  Growth that keeps its rate is looked at again "
        "after 400, 800 and 1600 rounds and is a violation if it still does; caches that fill up do not.  Distinct: distinct sets of documents.")
REQUIRED = {"parses": 120000, "intact documents": 400, "documents that raise": 120, "measurements": 2400}


class MallInfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks",
                                               "fordblks", "keepcost")]


def heap():
    try:
        f = ctypes.CDLL(None).mallinfo2
    except AttributeError:
        return lambda: 0
    f.restype = MallInfo

    def used():
        m = f()
        return m.uordblks + m.hblkhd

    return used


HEAP = heap()


def measure():
    gc.collect()
    gc.collect()
    return (HEAP(), sys.getallocatedblocks(), len(gc.get_objects()), len(os.listdir("/proc/self/fd")),
            threading.active_count(), len(sys.modules), len(gc.garbage))


WHAT = ("bytes of the heap in use", "blocks allocated", "objects alive", "open descriptors", "threads", "modules", "objects that cannot be freed")
# A pointer of 8 bytes kept for each parse is the least a leak can be; lists grow by eighths
PER_ROUND = (4, 0.8, 0.8, 0.8, 0.8, 0.8, 0.8)


def growing(at, values, least, keep):
    """Whether something grows by as much in each interval as in the one before."""
    steps = [(b - a) / (n - m) for m, n, a, b in zip(at, at[1:], values, values[1:])]
    return all(s >= least for s in steps) and all(b >= a * keep for a, b in zip(steps, steps[1:]))


def damage(g, root, p):
    """Make the document one that most likely raises."""
    files = sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
    files = [f for f in files if os.path.isfile(f) and not os.path.islink(f)]
    f = g.pick([str(p), g.pick(files)])
    how = g.pick(["cut", "cut", "missing", "bytes"])
    if how == "missing":
        os.rename(f, f + ".away")
        return
    with open(f, "rb") as s:
        data = s.read()
    with open(f, "wb") as s:
        s.write(data[:g.n(0, max(0, len(data.rstrip()) - 2))] if how == "cut" else b"\xff no text" + data)


def case(ctx, r, i):
    g = gen(r)
    jobs, texts = [], []
    for k in range(g.pick([1, 1, 2, 3])):
        root = ctx.fresh(f"p{k}")
        for _ in range(20):
            kind, fmt, fn, p, docs = anything.document(g, r, root)
            if sum(map(len, docs.values() if isinstance(docs, dict) else [docs])) < 30000:
                break
            root = ctx.fresh(f"p{k}_{_}")
        if g.p(0.4):
            damage(g, root, p)
        jobs.append((getattr(api(), fn), p))
        texts.append(docs)
        ctx.count(f"documents: {kind} ({fmt})")
    raising = sum(not guarded(fn, p).ok for fn, p in jobs)
    ctx.count("documents that raise", raising)
    ctx.count("intact documents", len(jobs) - raising)
    seen, done = [], 0

    def reach(n):
        nonlocal done
        while done < n:
            done += 1
            for fn, p in jobs:
                guarded(fn, p)
        seen.append(measure())

    for n in PLATEAUS:
        reach(n)
    at = PLATEAUS
    suspects = [k for k, v in enumerate(zip(*seen)) if growing(at, v, PER_ROUND[k], 0.5)]
    if suspects:
        # Free lists and tables that fill up slow down in the end, leaks do not
        ctx.count("growth looked at again")
        at = PLATEAUS + CONFIRM
        for n in CONFIRM:
            reach(n)
    ctx.count("parses", done * len(jobs))
    ctx.count("measurements", len(seen))
    ctx.evaluated(done * len(jobs))
    for k in suspects:
        values = [m[k] for m in seen]
        if growing(at[-4:], values[-4:], PER_ROUND[k], 0.75):
            ctx.fail(f"{WHAT[k]} after {at} rounds of {len(jobs)} documents: {values}, though every result and exception was dropped")
    for k, what in enumerate(WHAT):
        note = "largest growth over the last interval: " + what
        ctx.notes[note] = max(ctx.notes.get(note, 0), seen[-1][k] - seen[-2][k])
    ctx.distinct(texts)
    ctx.sample(str(texts))
