"""C17: parsing only reads the files it needs and leaves no trace."""
import errno
import gc
import os
import re
import warnings

from .. import faults, monitor, project_files, worlds
from ..base import guarded
from ..common import api, gen, path, styles, templated_map

CASES = {"quick": 4800, "thorough": 60000}
RULE = ("A case is one parse of a random map (with tilesets and templates in files of either format), tileset or "
        "world, intact or failing: a missing or truncated file, a failing nth open or nth read, "
        "garbage, any one value that makes no sense, an XML external entity or external DTD.  Around it: the audit hook "
        "(opens, writes, processes, sockets, ...), the descriptor table while the result or exception is still "
        "held, unclosed-file warnings, descriptors 1 and 2, wrapped setters and snapshots of process-wide "
        "settings, and the content and times of the whole scratch tree.  Distinct: distinct documents and faults.")
REQUIRED = {"parses watched": 1500, "failing parses watched": 500, "files opened": 3000, "settings compared": 20000,
            "files and directories compared": 5000, "external entities offered": 40, "failing reads injected": 100,
            "failing opens injected": 60, "images in place": 1000, "values spoilt": 3000, "infinite maps": 150, "maps with something large": 80, "worlds": 100, "tilesets": 100}


VALUE_XML = re.compile(r"""\s(\w+)\s*=\s*("[^"]*"|'[^']*')""")
VALUE_JSON = re.compile(r'''"(\w+)"\s*:\s*("(?:[^"\\]|\\.)*"|-?[\d.]+|true|false|null)''')


def before_import():
    monitor.watch_calls()


def begin(ctx):
    with monitor.Output():  # warm everything that is loaded on first use
        pass


def watched(ctx, fn, arg, allowed, root, plan=None):
    """Run one parse under all monitors; returns (outcome, list of complaints)."""
    bad = []
    leaks = []

    def show(message, category, *a, **k):
        if issubclass(category, ResourceWarning):
            leaks.append(str(message))
        elif not issubclass(category, (DeprecationWarning, PendingDeprecationWarning, ImportWarning)):
            bad.append(f"warns {category.__name__}: {message}")

    gc.collect()
    tree0 = monitor.tree(root)
    with warnings.catch_warnings():
        warnings.simplefilter("always")
        warnings.showwarning = show
        state0 = monitor.state()
        fds0 = monitor.fds()
        with monitor.Output() as out, monitor.Calls() as calls, monitor.IO() as io:
            if plan is None:
                o = guarded(fn, arg)
            else:
                real = monitor.state()["open functions"]
                with plan:
                    o = guarded(fn, arg)
                assert monitor.state()["open functions"] == real
            io.paused = True
            fds1 = monitor.fds()  # result or exception (and so its frames) still held
        state1 = monitor.state()
        left = {n: t for n, t in fds1.items() if fds0.get(n) != t and not t.startswith("/proc/self")}
        left = {n: t for n, t in left.items() if n not in out.saved and n != out.file_no and "(deleted)" not in t}
        if left:
            bad.append(f"leaves open {sorted(left.values())[:3]}")
        kind = o.kind()
        text = str(o.exc)[:100] if o.exc is not None else ""
        o.exc, o.value = (None, None)
        if kind != "ok":
            gc.collect()
    tree1 = monitor.tree(root)
    if leaks:
        bad.append(f"leaves files to the garbage collector: {leaks[:2]}")
    read = [os.path.realpath(x) for x in io.reads]
    extra = [x for x in read if x not in allowed]
    if extra:
        bad.append(f"opens {extra[:3]}")
    bad += io.effects[:4]
    if calls.seen:
        bad.append(f"calls {calls.seen[:3]}")
    bad += monitor.state_changes(state0, state1)
    bad += monitor.tree_changes(tree0, tree1)
    if out.text:
        bad.append(f"prints {out.text[:120]!r}")
    ctx.evaluated()
    ctx.count("parses watched")
    ctx.count("failing parses watched", kind != "ok")
    ctx.count("files opened", len(read))
    ctx.count("settings compared", len(state0))
    ctx.count("files and directories compared", len(tree0))
    return kind, text, bad


def sources(m):
    """The images that a model refers to."""
    if isinstance(m, dict):
        for k, v in m.items():
            if k in ("image", "source") and isinstance(v, str):
                yield v
            elif k != "ext":
                yield from sources(v)
    elif isinstance(m, list):
        for v in m:
            yield from sources(v)


def spoilt(g, text):
    """A document with one value that makes no sense; never one that leads to other files."""
    xml = text.lstrip().startswith("<")
    values = list(VALUE_XML.finditer(text) if xml else VALUE_JSON.finditer(text))
    values = [x for x in values if x[1] not in ("source", "template", "image", "fileName", "regexp", "firstgid")]
    if xml:
        values = [x for x in values if text[text.rindex("<", 0, x.start()) + 1] not in "?!"]
    if not values:
        return text, "nothing spoilt"
    # Each key has the same chance, however often it occurs
    key = g.pick(sorted({x[1] for x in values}))
    refused = {"encoding", "compression", "type", "data", "template"} & {x[1] for x in values}
    if refused and g.p(0.3):
        key = g.pick(sorted(refused))
    x = g.pick([x for x in values if x[1] == key])
    new = g.pick(["xyz", "-1", "", "1.5", "zstd", "base64", "group", "null"])
    new = '"' + new + '"' if xml or g.p(0.5) else g.pick(["null", "{}", "[]", "-1", "1e9", "true"])
    return text[:x.start(2)] + new + text[x.end(2):], f"{x[1]} set to {new}"


def large(g):
    """A layer with far more in it than usual."""
    k = g.n(0, 3)
    if k == 0:
        return g.tile_layer(False, rich=False, dims=(g.n(60, 120), g.n(40, 120)))
    if k == 1:
        return g.object_layer(False, count=g.n(150, 400))
    if k == 2:
        l = g.group([], False)
        for _ in range(g.n(20, 80)):
            l = g.group([l], False)
        return l
    l = g.object_layer(False, objs=[g.object(["Polygon", "Polyline", "Text"])])
    l["objects"][0].update({"points": [(g.num(), g.num()) for _ in range(900)]} if "points" in l["objects"][0]
                           else {"text": {"text": "long text " * 900}})
    return l


def case(ctx, r, i):
    g = gen(r, i, 100)
    root = ctx.fresh("p")
    other = ctx.fresh("cwd/a/b")
    os.chdir(other)
    images = []
    with open(os.path.join(root, "secret.txt"), "w") as f:
        f.write("secret")
    k = r.randrange(10)
    if k == 0:
        fmt = g.pick(["tmx", "json"])
        t = g.tileset("t")
        images += sources(t)
        p = project_files.write(root, "a/t." + fmt, project_files.doc_tileset(t, fmt, styles(r)()))
        docs, fn = {"a/t." + fmt: ""}, api().parse_tileset
        ctx.count("tilesets")
    elif k == 1:
        w, entries = worlds.make(g)
        p = worlds.write(root, "a/w.world", w, entries, styles(r)(), g)
        docs, fn, fmt = {"a/w.world": ""}, api().parse_world, "json"
        ctx.count("worlds")
    else:
        fmt = g.pick(["tmx", "json"])
        m, tps, new = templated_map(g, fmt, rich=True, ts_rich=True)
        m["layers"].insert(0, g.image_layer())
        if g.p(0.4):
            m["layers"] += g.forest(False, g.pick([1, 3]), g.pick([3, 8]), rich=True)
        if k == 2:
            m["infinite"], m["layers"] = True, g.forest(True, 2, 5)
            ctx.count("infinite maps")
        elif g.p(0.06):
            m["layers"].append(large(g))
            ctx.count("maps with something large")
        images += sources(m)
        p, docs = project_files.materialise(root, m, fmt, f"{g.rel_dirs()}/map.{fmt}", styles(r))
        fn = api().parse_map
        ctx.count("maps")
    for d in {other} | {os.path.join(root, os.path.dirname(rel)) for rel in docs}:
        # images that must not be opened lie where documents refer to them, or could be thought to
        for n in images:
            f = os.path.normpath(os.path.join(d, n))
            if g.p(0.7) and f.startswith(ctx.dir + os.sep) and not os.path.lexists(f):
                try:
                    os.makedirs(os.path.dirname(f), exist_ok=True)
                    with open(f, "wb") as h:
                        h.write(b"\x89PNG")
                    ctx.count("images in place")
                except OSError:
                    pass
    allowed = {os.path.join(root, d) for d in docs}
    rel = g.pick(sorted(docs))
    full = os.path.join(root, rel)
    given = p if g.p(0.7) else os.path.relpath(p, other)
    how = r.randrange(16)
    plan = None
    what = "intact"
    if how == 4:
        what = "missing " + rel
        os.remove(full)
    elif how == 5:
        what = "cut " + rel
        with open(full, "r+b") as f:
            f.truncate(g.n(0, max(0, os.path.getsize(full) - 3)))
    elif how == 6:
        what = "garbage " + rel
        with open(full, "wb") as f:
            f.write(g.pick([b"", b"\xff\xfe\0", b"hello", b"<", b"{", b"<a></b>", b"<!-- --"]))
    elif how in (7, 8):
        n = g.n(1, 2 * len(docs) + 1)
        plan = faults.Plan(fail_open=n, code=g.pick([errno.EACCES, errno.EIO, errno.EMFILE, errno.ENOENT]))
        what = f"open {n} fails"
    elif how in (9, 10):
        n = g.n(1, 6 * len(docs))
        plan = faults.Plan(fail_read=n, chunk=g.pick([None, 64, 700]))
        what = f"read {n} fails"
    elif how == 11:
        with open(full, encoding="utf-8") as f:
            text = f.read()
        if text.lstrip().startswith("<"):
            root_tag = [x for x in ("map", "tileset", "template") if "<" + x in text][0]
            at = text.index("<" + root_tag)
            head = text[:at].split("<!DOCTYPE")[0]
            uri = g.pick(["secret.txt", "file://" + os.path.join(root, "secret.txt"), "http://127.0.0.1:9/x.dtd"])
            dtd = g.pick([f'<!DOCTYPE {root_tag} [<!ENTITY e SYSTEM "{uri}">]>',
                          f'<!DOCTYPE {root_tag} SYSTEM "{uri}">',
                          f'<!DOCTYPE {root_tag} [<!ENTITY % p SYSTEM "{uri}"> %p;]>'])
            body = text[at:]
            if "ENTITY e" in dtd and 'name="' in body:
                body = body.replace("</" + root_tag, "<x>&e;</x></" + root_tag)
            with open(full, "w", encoding="utf-8") as f:
                f.write(head + dtd + body)
            what = "external entity in " + rel
            ctx.count("external entities offered")
    elif how > 11:
        for _ in range(6):
            # Most of the ways to fail are in the map itself
            full = g.pick([p, p, full])
            with open(full, encoding="utf-8", newline="") as f:
                before = f.read()
            after, what = spoilt(g, before)
            with open(full, "w", encoding="utf-8", newline="") as f:
                f.write(after)
            ctx.count("values spoilt")
            kind, text, bad = watched(ctx, fn, path(given), allowed, ctx.dir)
            if bad:
                ctx.fail(f"{fmt} {os.path.basename(p)} ({what} in {os.path.relpath(full, root)}; {kind} {text}): "
                         + "; ".join(bad))
            ctx.count("outcome " + kind)
            ctx.distinct(docs, what)
            with open(full, "w", encoding="utf-8", newline="") as f:
                f.write(before)
        what = "intact again"
    kind, text, bad = watched(ctx, fn, path(given), allowed, ctx.dir, plan)
    if plan is not None and plan.fired:
        ctx.count("failing opens injected" if plan.fail_open else "failing reads injected")
    if bad:
        ctx.fail(f"{fmt} {os.path.basename(p)} ({what}; {kind} {text}): " + "; ".join(bad))
    ctx.count("outcome " + kind)
    ctx.distinct(docs, what)
    ctx.sample(f"{sorted(docs)}; {what}; {kind}; opened {len(allowed)} at most")
