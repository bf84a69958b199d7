"""The runner every check uses: workers, guarded parses, verdicts and evidence."""
import argparse
import contextlib
import hashlib
import importlib
import json
import mmap
import os
import pickle
import random
import resource
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VM_REPO", "/repo")  # another tree only while developing
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
OUT = os.path.join(VERIF, "out")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
MAX_REPORTS = 3


class Violation(Exception):
    """Raised by a case when its monitor saw the property broken."""


class Outcome:
    """What a parse did: a value, or the exception it raised."""

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def kind(self):
        return "ok" if self.exc is None else type(self.exc).__name__


def guarded(fn, *args):
    try:
        return Outcome(fn(*args))
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # noqa: the verdict needs every exception
        return Outcome(exc=e)


def explain(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    inner = [f for f in tb if "/vm/" not in f.filename][-2:]
    where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(inner))
    return f"{type(exc).__name__}: {str(exc)[:200]} ({where})"


class Ctx:
    """What a case has at hand."""

    def __init__(self, prop, tier, seed, base):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.base = base
        self.counts = {}
        self.keys = set()
        self.samples = []
        self.index = None
        self.dir = None
        self.evals = 0
        self.notes = {}

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def distinct(self, *key):
        """Record a distinct non-trivial case."""
        h = hashlib.blake2b(repr(key).encode("utf-8", "surrogatepass"), digest_size=8).digest()
        self.keys.add(h)

    def sample(self, text, limit=700):
        if len(self.samples) < 2:
            self.samples.append(text if len(text) <= limit else text[:limit] + f"... ({len(text)} characters)")

    def rng(self, *key):
        return random.Random(f"{self.seed}:{self.prop}:" + ":".join(map(str, key)))

    def fresh(self, name):
        d = os.path.join(self.dir, name)
        os.makedirs(d)
        return d

    def fail(self, message):
        raise Violation(message)

    def evaluated(self, n=1):
        self.evals += n


class HarnessTimeout(BaseException):
    pass


CRASHES = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL}


def death(status):
    """How the code under test ended the whole process, None if something else did."""
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        return f"died of {signal.Signals(sig).name}" if sig in CRASHES else None
    return f"ended the process with exit code {os.WEXITSTATUS(status)}"


def import_subject():
    """Import the code under test from the working tree, never from elsewhere."""
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    # Compile the tree as it is now: byte code is neither read from nor written to it
    sys.dont_write_bytecode = True
    old, sys.pycache_prefix = sys.pycache_prefix, os.path.join("/nonexistent", "pycache")
    try:
        import pytiled_parser
        import pytiled_parser.util  # noqa
    finally:
        sys.pycache_prefix = old

    f = os.path.realpath(pytiled_parser.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit(f"pytiled_parser comes from {f}, not from {REPO}")
    return pytiled_parser


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > 1 << 30:
                return d
    return tempfile.gettempdir()


def run_isolated(mod, ctx, index, cpu_limit):
    """Run one case in a child process, so that it starts from the state after import."""
    ctx.dir = os.path.join(ctx.base, f"c{index}")
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        ctx.counts, ctx.keys, ctx.evals, ctx.notes = {}, set(), 0, {}
        signal.setitimer(signal.ITIMER_VIRTUAL, cpu_limit)
        try:
            res = ("done", run_one(mod, ctx, index))
        except HarnessTimeout:
            res = ("timeout", None)
        except BaseException:
            res = ("error", traceback.format_exc())
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        with open(w, "wb") as f:
            pickle.dump((res, ctx.counts, ctx.keys, ctx.evals, ctx.samples, ctx.notes), f)
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(0)
    os.close(w)
    try:
        with open(r, "rb") as f:
            data = f.read()
    finally:
        _, status = os.waitpid(pid, 0)
    if not data:
        if death(status):
            return "a parse " + death(status)
        raise RuntimeError("the process of the case was stopped")
    (kind, value), counts, keys, evals, samples, notes = pickle.loads(data)
    for k, v in counts.items():
        ctx.count(k, v)
    ctx.keys |= keys
    ctx.evals += evals
    ctx.samples = samples
    ctx.notes.update(notes)
    if kind == "timeout":
        raise HarnessTimeout()
    if kind == "error":
        raise RuntimeError(value)
    return value


def run_one(mod, ctx, index):
    """Run one case; returns None or the message of a violation."""
    ctx.index = index
    ctx.dir = os.path.join(ctx.base, f"c{index}")
    os.makedirs(ctx.dir)
    try:
        mod.case(ctx, ctx.rng(index), index)
        return None
    except Violation as v:
        return str(v)
    finally:
        os.chdir("/")


def keep_replay(ctx, prop, index, message):
    d = os.path.join(OUT, prop, f"{TIER}-s{ctx.seed}-{index}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with contextlib.suppress(Exception):
        shutil.copytree(ctx.dir, os.path.join(d, "files"), symlinks=True,
                        ignore_dangling_symlinks=True)
    with open(os.path.join(d, "case.json"), "w") as f:
        json.dump({"property": prop, "tier": TIER, "seed": ctx.seed, "index": index,
                   "message": message}, f, indent=1)
    with open(os.path.join(d, "message.txt"), "w", errors="backslashreplace") as f:
        f.write(message + "\n")
    return d


def worker(mod, prop, indices, base, result_file, cpu_limit, until, progress):
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    with contextlib.suppress(Exception):
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))

    def stop(*_):
        raise HarnessTimeout()

    signal.signal(signal.SIGVTALRM, stop)
    ctx = Ctx(prop, TIER, SEED, base)
    res = {"violations": [], "errors": []}
    if hasattr(mod, "begin"):
        mod.begin(ctx)
    done = 0
    isolate = getattr(mod, "ISOLATE", False)

    # One worker's violation ends the others' work, too
    found = os.path.join(os.path.dirname(result_file), "found")

    def save():
        res.update(cases=done, evals=ctx.evals, counts=ctx.counts, keys=ctx.keys,
                   samples=ctx.samples, notes=ctx.notes)
        with open(result_file + ".part", "wb") as f:
            pickle.dump(res, f)
        os.replace(result_file + ".part", result_file)

    for i in indices:
        if time.time() > until or os.path.exists(found):
            break
        progress[:] = struct.pack("q", -1 if isolate else i)
        if not isolate:
            signal.setitimer(signal.ITIMER_VIRTUAL, cpu_limit)
        try:
            msg = run_isolated(mod, ctx, i, cpu_limit) if isolate else run_one(mod, ctx, i)
        except HarnessTimeout:
            res["errors"].append(f"case {i}: no verdict within {cpu_limit} s of processor time")
            break
        except Exception:
            res["errors"].append(f"case {i}: harness error\n{traceback.format_exc()}")
            if len(res["errors"]) >= 3:
                break
            continue
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            progress[:] = struct.pack("q", -1)
        done += 1
        if msg is not None:
            res["violations"].append((i, msg, keep_replay(ctx, prop, i, msg)))
            save()
            with open(found, "w"):
                pass
            if len(res["violations"]) >= MAX_REPORTS:
                break
        shutil.rmtree(ctx.dir, ignore_errors=True)
    if hasattr(mod, "end"):
        mod.end(ctx)
    save()


def listed_findings(prop):
    out = {}
    with contextlib.suppress(OSError):
        with open(KNOWN) as f:
            for line in f:
                if line.startswith("finding:"):
                    w = line.split()
                    if w[1] == f"property={prop}" and w[2].startswith("key="):
                        out[w[2][4:]] = " ".join(w[3:])
    return out


def main(argv=None):
    global SEED, TIER
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", choices=["quick", "thorough"], help="instead of VERIF_TIER")
    ap.add_argument("--replay", help="directory of a recorded violation")
    ap.add_argument("--case", type=int, action="append", help="run only these cases, verbosely")
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--scale", type=float, default=1.0, help="multiply the number of cases")
    a = ap.parse_args(argv)
    prop = a.property
    TIER = a.tier or TIER
    if a.replay:
        with open(os.path.join(a.replay, "case.json")) as f:
            c = json.load(f)
        SEED, TIER = c["seed"], c["tier"]
        a.case = [c["index"]]
    mod = importlib.import_module(f"vm.checks.{prop.lower()}")
    # Where a check needs the optional decoder it puts the stand-in on the path first
    if getattr(mod, "ZSTUB", False):
        sys.path.insert(0, os.path.join(VERIF, "vm", "zstub"))
    if hasattr(mod, "before_import"):
        mod.before_import()
    import_subject()
    t0 = time.time()
    base = tempfile.mkdtemp(prefix=f"vm-{prop}-", dir=scratch_base())
    base = os.path.realpath(base)
    try:
        rc = drive(mod, prop, a, base, t0)
    finally:
        os.chdir("/")
        shutil.rmtree(base, ignore_errors=True)
    return rc


def drive(mod, prop, a, base, t0):
    n = int(mod.CASES[TIER] * a.scale) if not callable(mod.CASES) else mod.CASES(TIER)
    findings = listed_findings(prop)
    new_findings = []
    known_seen = []
    # Known findings: each is looked for by its own mechanism
    if hasattr(mod, "known") and not a.case:
        ctx = Ctx(prop, TIER, SEED, base)
        ctx.dir = os.path.join(base, "known")
        os.makedirs(ctx.dir)
        for key, what in mod.known(ctx):
            if key in findings:
                known_seen.append((key, findings[key]))
            else:
                new_findings.append((f"known-{key}", f"{key}: {what}",
                                     keep_replay(ctx, prop, f"known-{key}", what)))
        os.chdir("/")
    indices = a.case if a.case else list(range(n))
    W = 1 if a.case else max(1, min(a.workers, len(indices)))
    files = []
    pids = {}
    limit = getattr(mod, "CPU_LIMIT", 120)
    # On a slow machine fewer cases are run, and the evidence says how many
    deadline = t0 + getattr(mod, "WALL", {"quick": 700, "thorough": 7200})[TIER]
    until = t0 + (deadline - t0) * 0.7
    for w in range(W):
        rf = os.path.join(base, f"r{w}")
        files.append(rf)
        progress = mmap.mmap(-1, 8)
        progress[:] = struct.pack("q", -1)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                wb = os.path.join(base, f"w{w}")
                os.makedirs(wb)
                worker(mod, prop, indices[w::W], wb, rf, limit, until, progress)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids[pid] = rf, progress, os.path.join(base, f"w{w}")
    left = set(pids)
    dead = {}
    found = None
    while left:
        for p in list(left):
            q, status = os.waitpid(p, os.WNOHANG)
            if q:
                left.discard(p)
                rf, progress, wb = pids[p]
                i = struct.unpack("q", progress[:])[0]
                # A case was under way: the code under test took the process with it
                if i >= 0 and death(status):
                    ctx = Ctx(prop, TIER, SEED, wb)
                    ctx.dir = os.path.join(wb, f"c{i}")
                    msg = "a parse " + death(status)
                    dead[rf] = i, msg, keep_replay(ctx, prop, i, msg)
                    with open(os.path.join(base, "found"), "w"):
                        pass
        if left:
            if found is None and os.path.exists(os.path.join(base, "found")):
                found = time.time()
            if time.time() > deadline or found and time.time() > found + 60:
                for p in left:
                    os.kill(p, signal.SIGKILL)
                break
            time.sleep(0.01)
    tot = {"violations": list(new_findings), "errors": [], "cases": 0, "evals": 0, "counts": {},
           "keys": set(), "samples": [], "notes": {}}
    for rf in files:
        try:
            with open(rf, "rb") as f:
                r = pickle.load(f)
        except Exception:
            if rf not in dead:
                tot["errors"].append("a worker died or was stopped")
                continue
            r = None
        if rf in dead:
            tot["violations"].append(dead[rf])
        if r is None:
            continue
        tot["violations"] += r["violations"]
        tot["errors"] += r["errors"]
        tot["cases"] += r["cases"]
        tot["evals"] += r["evals"]
        tot["keys"] |= r["keys"]
        tot["samples"] += r["samples"]
        tot["notes"].update(r["notes"])
        for k, v in r["counts"].items():
            tot["counts"][k] = tot["counts"].get(k, 0) + v
    if hasattr(mod, "finish") and not a.case:
        mod.finish(tot)
    for key, what in known_seen:
        print(f"KNOWN-FINDING: property={prop} {what}")
    # A monitor that saw too little decides nothing
    share = min(1, tot["cases"] / len(indices)) if indices else 1
    required = {k: need if share == 1 else need * share * 0.8 for k, need in getattr(mod, "REQUIRED", {}).items()}
    short = [] if a.case else [f"{k}: {tot['counts'].get(k, 0)} < {need:.0f}" for k, need in required.items()
                               if tot["counts"].get(k, 0) < need]
    if share < 0.05:
        short.append(f"cases: {tot['cases']} of {len(indices)}")
    evals = tot["evals"] or tot["cases"]
    cov = {"evaluations": evals, "distinct_nontrivial": len(tot["keys"]), "rule": mod.RULE,
           "samples": tot["samples"][:3], "cases": tot["cases"],
           "observed": dict(sorted(tot["counts"].items()))}
    cov.update(tot["notes"])
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": getattr(mod, "LEVEL", "exploration"),
          "coverage": cov, "assumptions": getattr(mod, "ASSUMES", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(tot["violations"]),
          "known_findings": [k for k, _ in known_seen],
          "inconclusive": tot["errors"][:5] + short}
    if not a.case:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", f".{prop}.tmp")
        with open(tmp, "w", errors="backslashreplace") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", f"{prop}.json"))
    for i, msg, d in tot["violations"][:MAX_REPORTS]:
        print(f"case {i}: {msg}".encode("utf-8", "backslashreplace").decode())
        print(f"VIOLATION property={prop} replay={d}")
    for e in tot["errors"][:3]:
        print("INCONCLUSIVE: " + e)
    if tot["violations"]:
        return 1
    if tot["errors"] or short:
        for s in short:
            print("INCONCLUSIVE: the monitor observed too little: " + s)
        return 2
    print(f"{prop} {TIER} seed {SEED}: held on {evals} evaluations "
          f"({len(tot['keys'])} distinct) in {time.time() - t0:.1f} s")
    return 0

