"""Mutation campaign: make small changes to copies of the package, keep those that the repository's tests do not notice,
and see which check of this directory notices them.  A development tool: no check uses it.

    python3 -B tools/mutate.py OUT.jsonl [--jobs 4] [--only REGEX] [--sample N] [--list]
"""
import argparse, ast, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VM_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ORDER = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C22 C24 C23 C20 C16 C17 C19 C21 C18 C26 C27 C28 C29 C25".split()


# The checks to whose properties a file is closest
NEAR = {
    "parser.py": "C20 C21 C17 C19 C16 C13", "util.py": "C15 C20 C11 C12 C17 C19 C21 C13",
    "world.py": "C14 C17 C19 C21", "layer.py": "C04 C01 C02 C03 C24 C19 C22 C10 C25", "properties.py": "C06 C15 C23",
    "tiled_object.py": "C05 C12 C11 C23 C24 C22 C16 C25", "tileset.py": "C07 C08 C13 C23 C15 C22 C25",
    "wang_set.py": "C08 C22", "tiled_map.py": "C09 C11 C13 C20 C23 C03 C12 C22 C17 C19 C21 C25",
}


class Gen(ast.NodeVisitor):
    """Collect (kind, start, end, replacement) over one source text."""

    def __init__(self, src):
        self.src = src
        self.lines = src.split("\n")
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()) + 1)
        self.b = src.encode()
        self.out = []
        self.func = None
        self.keys = []

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        s, e = self.span(n)
        return self.b[s:e].decode()

    def add(self, kind, n, new):
        s, e = self.span(n)
        if self.b[s:e].decode() != new:
            self.out.append((kind, n.lineno, s, e, new))

    def visit_FunctionDef(self, n):
        old, oldk = self.func, self.keys
        self.func = n
        self.keys = [c for c in ast.walk(n) if isinstance(c, ast.Constant) and isinstance(c.value, str)
                     and re.fullmatch(r"[a-z]\w*", c.value)]
        for d in n.body:
            self.visit(d)
        if not n.decorator_list and len(n.args.args) <= 2:
            s = self.off[n.lineno - 1] + n.col_offset
            self.out.append(("cache", n.lineno, s, s, "@__import__('functools').lru_cache(maxsize=None)\n"))
        # What a call makes afresh is made once
        for d in ast.walk(n):
            v = getattr(d, "value", None)
            if isinstance(d, (ast.Assign, ast.AnnAssign)) and isinstance(v, (ast.List, ast.Dict)):
                t = self.text(v)
                self.add("hoist", v, f"globals().setdefault('_h{d.lineno}', {t})")
                self.add("hoistsize", v, f"globals().setdefault('_h{d.lineno}', [{t}, 0])[0]")
        self.func, self.keys = old, oldk

    def visit_ClassDef(self, n):
        for d in n.body:
            if isinstance(d, ast.AnnAssign) and d.value is not None:
                self.default(d)

    def default(self, d):
        v = d.value
        t = self.text(v)
        if t == "None":
            return
        if isinstance(v, ast.Constant) and isinstance(v.value, bool):
            self.add("default", v, str(not v.value))
        elif isinstance(v, ast.Constant) and isinstance(v.value, (int, float)):
            self.add("default", v, str(v.value + 1))
        elif isinstance(v, ast.Constant) and isinstance(v.value, str):
            self.add("default", v, repr(v.value + "x"))
        elif isinstance(v, ast.Call):
            for a in v.args:
                if isinstance(a, ast.Constant) and isinstance(a.value, (int, float)):
                    self.add("default", a, str(a.value + 1))
                    break

    def visit_AnnAssign(self, n):
        if self.func and n.value is not None:
            self.visit(n.value)

    def visit_If(self, n):
        t = self.text(n.test)
        self.add("iftrue", n.test, "True")
        self.add("iffalse", n.test, "False")
        m = re.fullmatch(r"(.*) is not None", t, re.S)
        if m:
            self.add("truthy", n.test, m.group(1))
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            l, r = self.text(n.left), self.text(n.comparators[0])
            sw = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">",
                  ast.In: "not in", ast.NotIn: "in"}.get(type(n.ops[0]))
            if sw:
                self.add("cmp", n, f"{l} {sw} {r}")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        a = [self.text(v) for v in n.values]
        self.add("bool", n, (" and " if isinstance(n.op, ast.Or) else " or ").join(a))
        for i in range(len(a)):
            self.add("drop", n, (" or " if isinstance(n.op, ast.Or) else " and ").join(a[:i] + a[i + 1:]))
        self.generic_visit(n)

    def visit_BinOp(self, n):
        sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Mod: "//", ast.LShift: ">>"}.get(type(n.op))
        if sw:
            self.add("arith", n, f"{self.text(n.left)} {sw} {self.text(n.right)}")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.add("not", n, self.text(n.operand))
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add("const", n, str(not v))
        elif isinstance(v, (int, float)):
            self.add("const", n, str(v + 1))
            if v:
                self.add("const", n, "0")
        elif isinstance(v, str) and re.fullmatch(r"[a-z]\w*", v):
            self.add("typo", n, repr(v + "x"))
            ks = [k for k in self.keys if k.value != v]
            if ks:
                k = min(ks, key=lambda k: (abs(k.lineno - n.lineno), k.col_offset))
                self.add("otherkey", n, repr(k.value))
        elif isinstance(v, str) and v.startswith("./"):
            self.add("deep", n, repr(".//" + v[2:]))
            self.add("typo", n, repr(v + "x"))

    def visit_Call(self, n):
        f = self.text(n.func)
        a = [self.text(x) for x in n.args]
        if len(a) == 2 and not n.keywords and f not in ("isinstance", "cast", "hasattr"):
            self.add("swap", n, f"{f}({a[1]}, {a[0]})")
            self.add("same", n, f"{f}({a[0]}, {a[0]})")
        if f in ("int", "float", "bool", "str") and len(a) == 1:
            self.add("unconv", n, f"({a[0]})")
            if f == "float":
                self.add("intconv", n, f"int(float({a[0]}))")
        if f.endswith(".get") and len(a) == 2:
            self.add("nodefault", n, f"{f}({a[0]})")
        if f.endswith((".absolute", ".resolve", ".strip", ".setdefault")) and not a:
            self.add("dropcall", n, f.rsplit(".", 1)[0])
        for k in n.keywords:
            if k.arg in ("encoding", "external_path", "parent_dir", "default"):
                new = [self.text(x) for x in n.args] + [(f"{q.arg}={self.text(q.value)}" if q.arg else f"**{self.text(q.value)}") for q in n.keywords if q is not k]
                self.add("dropkw", n, f"{f}({', '.join(new)})")
        # Rarer circumstances
        if len(a) == 1 and not n.keywords:
            if f == "int":
                self.add("rare", n, f"int({a[0]}) & 0x7FFFFFFF")
                self.add("rare", n, f"int(float({a[0]}))")
                self.add("rare", n, f"(lambda v: v if abs(v) < 1000000 else 0)(int({a[0]}))")
            elif f == "float":
                self.add("rare", n, f"round(float({a[0]}), 4)")
                self.add("rare", n, f"abs(float({a[0]}))")
                self.add("rare", n, f"(lambda v: v if abs(v) < 1e6 else 0.0)(float({a[0]}))")
            elif f == "Path" or f.endswith("Path"):
                self.add("rare", n, f"Path(__import__('os').path.normpath({a[0]}))")
                self.add("rare", n, f"Path(__import__('os').path.expanduser({a[0]}))")
                self.add("rare", n, f"Path(str({a[0]}).strip())")
                self.add("rare", n, f"Path(str({a[0]}).replace(chr(92), '/'))")
                self.add("rare", n, f"Path(__import__('unicodedata').normalize('NFC', str({a[0]})))")
            elif f.startswith(("parse_", "_parse_")):
                self.add("rare", n, f"globals().setdefault('_m', {{}}).setdefault(str({a[0]}), {f}({a[0]}))")
        if f in ("OrderedPair", "Size") and len(a) == 2:
            self.add("rare", n, f"{f}({a[0]}, {a[1]} or {a[0]})")
        if f == "open":
            self.add("rare", n, self.text(n)[:-1] + ", errors='replace')")
            self.add("rare", n, self.text(n)[:-1] + ", newline='')")
        if f.endswith("json.load") or f.endswith("etree.parse"):
            self.add("rare", n, f"globals().setdefault('_c', {{}}).setdefault({a[0]}.name, {self.text(n)})")
        if f.endswith("append") and a:
            o = f[:-7]
            self.add("rare", n, f"len({o}) < 64 and {self.text(n)}")
            self.add("rare", n, f"{a[0]} in {o}[-1:] or {self.text(n)}")
            self.add("rare", n, f"{a[0]} in {o}[:-1] or {self.text(n)}")
            self.add("insert", n, f"{f[:-6]}insert(0, {a[0]})")
            self.add("twice", n, f"({self.text(n)}, {self.text(n)})")
        if len(a) >= 2 and not f.startswith(("isinstance", "re.", "cast")) and a[-1].startswith(("parent_dir", "new_tileset")):
            self.add("droparg", n, f"{f}({', '.join(a[:-1])})")
        self.generic_visit(n)

    def visit_Subscript(self, n):
        self.visit(n.value)
        self.visit(n.slice)

    def visit_For(self, n):
        it = self.text(n.iter)
        self.add("reversed", n.iter, f"list({it})[::-1]")
        self.add("skiplast", n.iter, f"list({it})[:-1]")
        self.add("skipfirst", n.iter, f"list({it})[1:]")
        self.add("rare", n.iter, f"list({it})[:48]")
        self.add("dedup", n.iter, f"list(dict.fromkeys(map(lambda x: x, {it})))")
        self.generic_visit(n)

    def stmt(self, n):
        self.add("delete", n, "pass")

    def visit_Assign(self, n):
        self.stmt(n)
        t = self.text(n.targets[0])
        if self.func and len(n.targets) == 1:
            v = self.text(n.value)
            if isinstance(n.targets[0], (ast.Attribute, ast.Name)):
                self.add("sticky", n.value, f"globals().setdefault('_s{n.lineno}', []).append({v}) or _s{n.lineno}[-1 if len(_s{n.lineno}) < 3 else -2]")
            if re.search(r"(attrib|raw_\w+)\[\W*\w+\W*\]$", v):
                self.add("strip", n.value, f"(lambda v: v.strip() if isinstance(v, str) else v)({v})")
                self.add("cutoff", n.value, f"(lambda v: v[:200] if isinstance(v, str) else v)({v})")
                self.add("emptied", n.value, f"({v} or {t})" if isinstance(n.targets[0], ast.Attribute) else v)
                self.add("fold", n.value, f"(lambda v: __import__('unicodedata').normalize('NFC', v) if isinstance(v, str) else v)({v})")
                self.add("lines", n.value, f"(lambda v: ' '.join(v.splitlines()) if isinstance(v, str) else v)({v})")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.stmt(n)
        self.generic_visit(n)

    def visit_Expr(self, n):
        if not (isinstance(n.value, ast.Constant)):
            self.stmt(n)
            self.generic_visit(n)

    def visit_Raise(self, n):
        self.add("noraise", n, "pass")
        self.generic_visit(n) if False else None

    def visit_Continue(self, n):
        self.add("break", n, "break")

    def visit_JoinedStr(self, n):
        pass

    def visit_With(self, n):
        for i in n.items:
            s, e = self.span(i.context_expr)
            t = self.text(i.context_expr)
            if i.optional_vars is not None:
                self.out.append(("leak", n.lineno, s, e, f"__import__('contextlib').nullcontext({t})"))
            self.visit(i.context_expr)
        for d in n.body:
            self.visit(d)


def mutants():
    base = os.path.join(REPO, "pytiled_parser")
    for d, _, fs in sorted(os.walk(base)):
        for f in sorted(fs):
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            src = open(p, newline="").read()
            crlf = "\r\n" in src
            src = src.replace("\r\n", "\n")
            g = Gen(src)
            tree = ast.parse(src)
            for n in tree.body:
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    g.visit(n)
            rel = os.path.relpath(p, REPO)
            for kind, line, s, e, new in g.out:
                m = g.b[:s] + new.encode() + g.b[e:]
                try:
                    ast.parse(m)
                except SyntaxError:
                    continue
                text = m.decode()
                yield {"file": rel, "line": line, "kind": kind, "old": g.b[s:e].decode()[:90], "new": new[:90],
                       "text": text.replace("\n", "\r\n") if crlf else text}


def run(m, checks, stop):
    d = tempfile.mkdtemp(prefix="mutant", dir="/dev/shm")
    try:
        r = d + "/repo"
        shutil.copytree(REPO, r, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        open(os.path.join(r, m["file"]), "w", newline="").write(m["text"])
        res = {k: m[k] for k in ("file", "line", "kind", "old", "new")}
        try:
            t = subprocess.run([PY, "-B", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=r,
                               capture_output=True, timeout=120, env=dict(os.environ, PYTHONPATH=r))
        except subprocess.TimeoutExpired:
            res["tests"] = "timeout"
            return res
        if t.returncode:
            res["tests"] = "fail"
            return res
        res["tests"] = "pass"
        res["by"] = []
        near = [c for c in NEAR.get(os.path.basename(m["file"]), "").split()]
        checks = near + [c for c in checks if c not in near]
        # Most are seen by a small part of a near check
        for c, scale in [(c, "0.12") for c in near] + [(c, "1") for c in checks]:
            try:
                q = subprocess.run([ROOT + "/bin/check", c, "--scale", scale], capture_output=True, text=True, timeout=900,
                                   env=dict(os.environ, VM_REPO=r, VERIF_SEED="1", VERIF_TIER="quick"))
            except subprocess.TimeoutExpired:
                res["by"].append((c, "timeout", ""))
                continue
            if q.returncode == 1 or q.returncode and scale == "1":
                l = [x for x in (q.stdout + q.stderr).splitlines() if x.strip()]
                v = any(x.startswith("VIOLATION property=" + c) for x in l)
                res["by"].append((c, q.returncode if v or q.returncode != 1 else "no line", (l[0] if l else "")[:300]))
                if stop:
                    break
        return res
    finally:
        shutil.rmtree(d)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("out")
    a.add_argument("--jobs", type=int, default=4)
    a.add_argument("--only", default="")
    a.add_argument("--checks", default="")
    a.add_argument("--sample", type=int)
    a.add_argument("--all", action="store_true")
    a.add_argument("--list", action="store_true")
    o = a.parse_args()
    ms = [m for m in mutants() if re.search(o.only, f"{m['file']}:{m['line']}:{m['kind']}")]
    if o.sample and o.sample < len(ms):
        ms = random.Random(1).sample(ms, o.sample)
    print(len(ms), "mutants", flush=True)
    if o.list:
        from collections import Counter
        print(Counter(m["kind"] for m in ms))
        return
    done = set()
    if os.path.exists(o.out):
        for l in open(o.out):
            x = json.loads(l)
            done.add((x["file"], x["line"], x["kind"], x["old"], x["new"]))
    checks = o.checks.split(",") if o.checks else ORDER
    n = {"fail": 0, "timeout": 0, "caught": 0, "missed": 0}
    with ThreadPoolExecutor(o.jobs) as ex, open(o.out, "a") as f:
        todo = [m for m in ms if (m["file"], m["line"], m["kind"], m["old"], m["new"]) not in done]
        from concurrent.futures import as_completed
        for r in (x.result() for x in as_completed([ex.submit(run, m, checks, not o.all) for m in todo])):
            f.write(json.dumps(r) + "\n")
            f.flush()
            if r["tests"] != "pass":
                n[r["tests"]] += 1
            elif r["by"]:
                n["caught"] += 1
            else:
                n["missed"] += 1
    print(n)


main()
