"""C19: a damaged or unreadable input raises; nothing partial is returned."""
import base64
import errno
import gzip
import os
import re
import zlib

from .. import expect, faults, project, project_files, worlds
from ..base import explain, guarded
from ..common import api, gen, parse_and_diff, path, style, styles, templated_map
from ..wtmx import pack

CASES = {"quick": 1600, "thorough": 12000}
LEVEL = "fault_enumeration"
RULE = ("A case is one intact input (a map with tilesets and templates in files of either format, a tileset, or a "
        "world) and a set of faults on one of its files: every truncation point (documents up to 1.5 kB, thorough 6 kB; a sample of "
        "points above), leftovers of other content behind its end, zeroed blocks, bytes that are no UTF-8, the file missing, a directory, a dangling or looping link or a device whose reads fail in its place, each "
        "open and each read failing with an errno (opens and reads enumerated on a recorded run; reads also in "
        "short pieces), or compressed tile data cut at any byte or with any bit flipped.  The oracle: "
        "the parse raises (an injected OSError comes out as OSError of that errno), damaged payloads may only "
        "yield the original data, and after the faults the intact input parses to the model's meaning. Distinct: distinct "
        "pairs of document and fault.")
REQUIRED = {"truncation points": 60000, "damages: leftover": 2500, "damages: block": 1200, "damages: byte": 1200, "failing opens": 1500, "failing reads": 1500, "real unreadable files": 500,
            "damaged payloads": 5000, "recoveries compared": 700, "truncations of a tileset": 3000,
            "truncations of a template": 3000, "truncations of a world": 3000, "truncations of a map": 3000}
CODES = [errno.EIO, errno.EACCES, errno.EMFILE, errno.ENFILE, errno.EPERM, errno.ESTALE, errno.ENOENT, errno.ENOMEM,
         errno.EINTR, errno.EISDIR, errno.ELOOP, errno.ENAMETOOLONG, errno.ENXIO]


class Input:
    def __init__(self, ctx, g, r):
        self.root = ctx.fresh("p")
        k = r.randrange(10)
        self.fmt = fmt = g.pick(["tmx", "json"])
        if k == 0:
            t = g.tileset("t")
            self.kind, self.fn = "tileset", api().parse_tileset
            rel = "a/t." + fmt
            self.docs = {rel: project_files.doc_tileset(t, fmt, style(r))}
            self.roles = {rel: "tileset"}
            self.wrong = lambda v: project.diff(expect.tileset(t, 1, None, fmt), v)
        elif k == 1:
            w, entries = worlds.make(g)
            rel = "a/w.world"
            worlds.write(self.root, rel, w, entries, style(r), g)
            with open(os.path.join(self.root, rel), encoding="utf-8") as f:
                self.docs = {rel: f.read()}
            self.kind, self.fn = "world", api().parse_world
            self.roles = {rel: "world"}
            self.wrong = None
            self.w = w
        else:
            m, tps, new = templated_map(g, fmt, declared=g.pick([0, 1, 2]), undeclared=g.pick([0, 1]),
                                        templates=1, instances=g.pick([1, 2]))
            m["layers"] = m["layers"][:3] if g.p(0.5) else m["layers"]
            rel = f"{g.rel_dirs()}/map.{fmt}"
            self.docs = project_files.documents(m, fmt, rel, styles(r, 0.5))
            self.kind, self.fn = "map", api().parse_map
            ext = {t["ext"]["path"] for t in project_files.externals_of(m)}
            self.roles = {d: "map" if d == rel else "tileset" if d in ext else "template" for d in self.docs}
            p = os.path.join(self.root, rel)
            self.wrong = lambda v: project.diff_map(expect.map_(m, self.root, fmt, p), v)
        for d, text in self.docs.items():
            project_files.write(self.root, d, text)
        self.rel = rel
        self.path = path(os.path.join(self.root, rel))

    def parse(self):
        return guarded(self.fn, self.path)

    def check_intact(self, ctx, after):
        o = self.parse()
        ctx.evaluated()
        if not o.ok:
            ctx.fail(f"after {after}, the intact {self.kind} did not parse: {explain(o.exc)}")
        if self.kind == "world":
            d = worlds.differences(self.w, os.path.dirname(str(self.path)), o.value)
        else:
            d = self.wrong(project.any_(o.value))
        if d:
            ctx.fail(f"after {after}, the intact {self.kind} is wrong:\n"
                     + (str(d) if self.kind == "world" else project.show(d)))
        ctx.count("recoveries compared")


def must_raise(ctx, inp, what, want=None):
    o = inp.parse()
    ctx.evaluated()
    ctx.distinct(inp.docs, what)
    if o.ok:
        ctx.fail(f"{inp.fmt} {inp.kind} with {what}: returned {str(o.value)[:200]}")
    if not isinstance(o.exc, Exception):
        ctx.fail(f"{inp.fmt} {inp.kind} with {what}: raised {explain(o.exc)}")
    if want is not None:
        if not isinstance(o.exc, OSError):
            ctx.fail(f"{inp.fmt} {inp.kind} with {what}: the OSError came out as {explain(o.exc)}")
        if want and o.exc.errno != want:
            ctx.fail(f"{inp.fmt} {inp.kind} with {what}: errno {want} came out as {explain(o.exc)}")


def truncations(ctx, g, inp, rel):
    full = os.path.join(inp.root, rel)
    with open(full, "rb") as f:
        data = f.read()
    end = len(data.rstrip())  # complete without trailing blank space
    role = inp.roles[rel]
    points = range(end)
    full_up_to, some = (1500, 500) if ctx.tier == "quick" else (6000, 2000)
    if end > full_up_to:
        points = sorted(set(g.r.sample(range(end), some)) | {0, 1, end - 1, end - 2} | {8192, 4096, 65536} & set(points))
    # From the longest prefix to the shortest: one open file serves all
    with open(full, "r+b") as f:
        for k in reversed(points):
            f.truncate(k)
            must_raise(ctx, inp, f"{rel} ({role}) cut at byte {k} of {end}")
            ctx.count("truncation points")
            ctx.count("truncations of a " + role)
    with open(full, "wb") as f:
        f.write(data)


def damages(ctx, g, inp, rel):
    """Leftovers behind the end, blocks that were never written, bytes that are no text."""
    full = os.path.join(inp.root, rel)
    with open(full, "rb") as f:
        data = f.read()
    end = len(data.rstrip())
    for _ in range(8):
        how = g.pick(["leftover", "leftover", "block", "byte"])
        k = g.n(0, end - 1)
        if how == "leftover":
            tail = g.pick([data, data[k:end], data[:k + 1], b"\0" * 512, b"}", b"]", b">", b"x", b"1", b"null", b"{}", b"</map>", b"\x1a",
                           "\ufffd".encode(), data[k:end].swapcase()])
            if not tail.strip() or tail.lstrip().startswith((b"<!--", b"<?")):
                continue
            bad, what = data + tail, f"{len(tail)} bytes behind its end ({tail[:12]!r}...)"
        elif how == "block":
            n = g.pick([1, 16, 512, 4096])
            bad, what = data[:k] + b"\0" * min(n, end - k) + data[k + n:], f"zeros instead of {n} bytes at {k}"
        else:
            # (no encoded surrogates: json.loads() of bytes lets them pass)
            b = g.pick([b"\xff", b"\xfe", b"\xc0\xaf", b"\xf5\x80\x80\x80", b"\x80"])
            while data[k] & 0xC0 == 0x80 or (b == b"\x80" and k and data[k - 1] & 0x80):
                k -= 1  # between characters
            bad, what = data[:k] + b + data[k:], f"bytes {b!r} at {k}, which are no UTF-8"
        with open(full, "wb") as f:
            f.write(bad)
        must_raise(ctx, inp, f"{rel} ({inp.roles[rel]}) with {what}")
        ctx.count("damages: " + how)
    with open(full, "wb") as f:
        f.write(data)


def real_faults(ctx, g, inp, rel):
    full = os.path.join(inp.root, rel)
    away = full + ".away"
    for how, code in (("missing", errno.ENOENT), ("directory", errno.EISDIR), ("dangling link", errno.ENOENT),
                      ("link loop", errno.ELOOP), ("failing device", errno.EIO), ("file as directory", errno.ENOTDIR)):
        os.rename(full, away)
        if how == "directory":
            os.mkdir(full)
        elif how == "dangling link":
            os.symlink(away + ".none", full)
        elif how == "link loop":
            os.symlink(full, full)
        elif how == "failing device":
            os.symlink("/proc/self/mem", full)  # this very process: reading at 0 fails
        elif how == "file as directory":
            os.symlink(away + "/x", full)
        must_raise(ctx, inp, f"{rel} ({inp.roles[rel]}) replaced: {how}", code)
        ctx.count("real unreadable files")
        if how == "directory":
            os.rmdir(full)
        elif how != "missing":
            os.unlink(full)
        os.rename(away, full)


def injected(ctx, g, inp):
    for chunk in (None, g.pick([1, 7, 64, 200, 1000])):
        with faults.Plan(chunk=chunk) as plan:
            o = inp.parse()
        if not o.ok:
            ctx.fail(f"{inp.fmt} {inp.kind} read in pieces of {chunk} raised {explain(o.exc)}")
        reads, opens = plan.reads, plan.opens
        ctx.count("opens recorded", opens)
        if not opens or not reads:
            ctx.count("runs whose file access was not seen")
            continue
        if chunk is None:
            for n in range(1, opens + 1):
                code = g.pick(CODES)
                with faults.Plan(fail_open=n, code=code) as p:
                    must_raise(ctx, inp, f"open {n} of {opens} failing with {errno.errorcode[code]}", code)
                if not p.fired:
                    raise AssertionError("the open was not reached")
                ctx.count("failing opens")
        ks = range(1, reads + 1) if reads <= 12 else sorted({1, 2, reads, reads - 1} | {g.n(1, reads) for _ in range(8)})
        for n in ks:
            code = g.pick([errno.EIO, errno.EIO, errno.ESTALE, errno.EISDIR, errno.ENOMEM, errno.EACCES])
            with faults.Plan(fail_read=n, code=code, chunk=chunk) as p:
                must_raise(ctx, inp, f"read {n} of {reads} (pieces of {chunk}) failing with {errno.errorcode[code]}", code)
            if not p.fired:
                raise AssertionError("the read was not reached")
            ctx.count("failing reads")


def payload(ctx, g, r):
    """Compressed tile data that is cut short or corrupted."""
    fmt = g.pick(["tmx", "json"])
    comp = g.pick(["zlib", "gzip"])
    inf = g.p(0.3)
    l = g.tile_layer(inf, rich=False, dims=(g.n(1, 12), g.n(1, 12)))
    if inf and not l["chunks"]:
        l["chunks"] = [g.chunk()]
    l["_enc"] = "base64-" + comp
    top = l
    for _ in range(g.pick([0, 0, 1, 3])):
        top = g.group([top], rich=False)
    m = g.map([top], [], infinite=inf, rich=False)
    root = ctx.fresh("p")
    rel = "map." + fmt
    p, docs = project_files.materialise(root, m, fmt, rel)
    text = docs[rel]
    grids = l["chunks"] if inf else [{"grid": l["data"]}]
    raw = pack(g.pick(grids)["grid"])
    blobs = re.findall(r"[A-Za-z0-9+/]{12,}={0,2}", text)
    good = None
    for b in blobs:
        try:
            d = base64.b64decode(b, validate=True)
            if (zlib.decompress(d) if comp == "zlib" else gzip.decompress(d)) == raw:
                good = b
        except Exception:
            continue
    if good is None:
        raise AssertionError("payload not found")
    blob = base64.b64decode(good)
    want = expect.map_(m, root, fmt, p)
    todo = [("cut", k) for k in (range(len(blob)) if len(blob) < 120 else g.r.sample(range(len(blob)), 60))]
    bits = range(len(blob) * 8) if len(blob) < 12 else g.r.sample(range(len(blob) * 8), 60)
    todo += [("flip", k) for k in bits] + [("flip", len(blob) * 8 - 1 - k) for k in range(0, 64, 3)]
    for how, k in todo:
        if (how, k) == ("cut", 0) and fmt == "tmx" and not inf:
            continue  # an empty data element is how TMX stores a layer without chunks
        bad = blob[:k] if how == "cut" else blob[:k // 8] + bytes([blob[k // 8] ^ 1 << k % 8]) + blob[k // 8 + 1:]
        project_files.write(root, rel, text.replace(good, base64.b64encode(bad).decode(), 1))
        o = guarded(api().parse_map, path(p))
        ctx.evaluated()
        ctx.count("damaged payloads")
        ctx.distinct(text, how, k)
        what = f"{fmt} {comp} data of {len(blob)} bytes, {how} at {k // 8 if how == 'flip' else k}"
        if o.ok:
            if how == "cut":
                ctx.fail(f"{what}: a result was returned")
            d = project.diff_map(want, project.any_(o.value))
            if d:
                ctx.fail(f"{what}: a wrong result was returned\n" + project.show(d))
            ctx.count("flips that leave the data intact")
    project_files.write(root, rel, text)
    o = guarded(api().parse_map, path(p))
    if not o.ok or project.diff_map(want, project.any_(o.value)):
        ctx.fail(f"after damaged payloads the intact map is wrong: {o.kind()}")
    ctx.count("recoveries compared")


def case(ctx, r, i):
    g = gen(r)
    if i % 6 == 5:
        payload(ctx, g, r)
        return
    inp = Input(ctx, g, r)
    inp.check_intact(ctx, "nothing yet")
    rels = sorted(inp.docs)
    g.r.shuffle(rels)
    rels.sort(key=lambda d: inp.roles[d] == "map" and g.p(0.5))
    for rel in rels[:1 if ctx.tier == "quick" else 3]:
        truncations(ctx, g, inp, rel)
    damages(ctx, g, inp, g.pick(rels))
    real_faults(ctx, g, inp, g.pick(rels))
    inp.check_intact(ctx, "truncations and unreadable files")
    injected(ctx, g, inp)
    inp.check_intact(ctx, "failing opens and reads")
    ctx.sample("\n".join(inp.docs.values()))
