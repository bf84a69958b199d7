"""C16: each parse is fresh: results share nothing and reflect the files now."""
import copy
import os
import random

from .. import alias, expect, project, project_files, worlds
from ..base import explain, guarded
from ..common import api, gen, path, templated_map
from ..style import Style

CASES = {"quick": 2100, "thorough": 20000}
RULE = ("A case is one history of 8-25 (thorough: up to 80) random steps over two or three projects whose maps "
        "share tilesets and templates, a standalone tileset and a world: parse; edit a map, tileset or template in "
        "place or by replacement, size and timestamps kept; change the world's directory; spoil earlier "
        "results; parse damaged files; change the working directory.  After each parse its result must equal "
        "the model's current meaning, share no mutable object with any result still held or with "
        "itself, and all held unspoiled results must still read as before.  Cases are distinct by their history.")
REQUIRED = {"parses compared": 3000, "edits seen by the next parse": 1000, "edits: template": 80,
            "edits: tileset": 80, "edits: map": 80, "edits: format": 80, "edits: world": 80, "mutable objects walked": 100000, "results spoiled": 500,
            "failed parses between": 300, "pairs of results checked for sharing": 5000,
            "held results read again": 5000, "world parses": 200}


def tag(i, kind):
    return f"{kind}{i:06d}"


class Project:
    """A map with its files; every file carries a marker that edits change."""

    def __init__(self, g, root, fmt, number, m, rel):
        self.fmt, self.m, self.rel = fmt, m, rel
        self.root = root
        self.path = os.path.join(root, rel)
        self.seed = g.r.random()

    def docs(self):
        return project_files.documents(self.m, self.fmt, self.rel, Style(random.Random(self.seed), 0.0))

    def expected(self, given):
        return expect.map_(self.m, self.root, self.fmt, given)


class World:
    def __init__(self, ctx, g, r):
        self.ctx, self.g, self.r = ctx, g, r
        self.root = ctx.fresh("h")
        self.serial = 100000
        self.projects = []
        self.held = []      # (description, result, projection, index)
        self.log = []
        self.build()

    # ----------------------------------------------------------- set-up
    def build(self):
        g = self.g
        for k in range(g.pick([2, 2, 3])):
            fmt = ["tmx", "json"][(k + g.n(0, 1)) % 2]
            m, tps, new = templated_map(g, fmt, declared=g.pick([1, 2]), undeclared=g.pick([0, 1]),
                                        templates=g.pick([1, 2]), instances=g.pick([2, 4]),
                                        rich=True, ts_rich=True)
            m["properties"] = [{"name": "marker", "type": "string", "value": tag(0, "map")}]
            for t in project_files.externals_of(m) + m["tilesets"]:
                t["ext"] = {"path": f"p{k}/" + t["ext"]["path"], "fmt": t["ext"]["fmt"]} if "ext" in t else None
                if t["ext"] is None:
                    del t["ext"]
                t["class"] = tag(0, "ts")
            for t in tps:
                t["path"] = f"p{k}/" + t["path"]
                t["object"]["class"] = tag(0, "tpl")
            for o in expect.objects_of(m["layers"]):
                if "template" in o:
                    o.pop("class", None)
            p = Project(g, self.root, fmt, k, m, f"p{k}/map.{fmt}")
            self.projects.append(p)
        # A second map beside each, over the very same tileset and template files
        for p in list(self.projects):
            m = dict(p.m)
            m["layers"] = copy.copy(p.m["layers"])
            m["properties"] = [{"name": "marker", "type": "string", "value": tag(0, "map")}]
            q = Project(g, self.root, p.fmt, 9, m, p.rel.replace("map.", "twin."))
            q.seed = p.seed
            self.projects.append(q)
        self.files = {}
        for p in self.projects:
            for rel, text in p.docs().items():
                self.files[rel] = text
                # Room for the other format
                project_files.write(self.root, rel, text + " " * (g.pick([0, 2, 4]) * len(text.encode("utf-8"))))
        t = g.tileset("own")
        t["class"] = tag(0, "ts")
        self.own, self.own_fmt = t, g.pick(["tmx", "json"])
        self.own_path = os.path.join(self.root, "own." + self.own_fmt)
        project_files.write(self.root, "own." + self.own_fmt, project_files.doc_tileset(t, self.own_fmt, Style()))
        self.w, self.entries = worlds.make(g)
        self.world_path = worlds.write(self.root, "worlds/w.world", self.w, self.entries, Style())
        with open(self.world_path, "a") as f:
            f.write(" " * g.pick([0, 2000]))

    def fail(self, msg):
        self.ctx.fail(msg + "\nhistory: " + "; ".join(self.log[-14:]))

    # ----------------------------------------------------------- steps
    def record(self, what, result, shown):
        for a, b, t in alias.shared_inside(result)[:1]:
            self.fail(f"{what}: {a} and {b} are the same mutable {t}")
        idx = alias.index(result)
        self.ctx.count("mutable objects walked", len(idx))
        for name, _, _, other in self.held:
            s = alias.shared_between(other, idx)
            self.ctx.count("pairs of results checked for sharing")
            if s:
                self.fail(f"{name} and the later {what} share a mutable {s[0][2]}: {s[0][0]} and {s[0][1]}")
        self.held.append((what, result, shown, idx))
        self.reread()
        if len(self.held) > 7:
            self.held.pop(self.g.n(0, 6))

    def reread(self):
        for name, res, shown, _ in self.held:
            if shown is None:
                continue
            self.ctx.count("held results read again")
            now = project.any_(res)
            if now != shown:
                self.fail(f"the earlier result {name} has changed:\n" + project.show(project.diff(shown, now)))

    def parse(self, p=None):
        g = self.g
        k = g.r.randrange(10)
        if p is None and k == 0:
            return self.parse_own()
        if p is None and k == 1:
            return self.parse_world()
        p = p or g.pick(self.projects)
        given = p.path if g.p(0.6) else os.path.relpath(p.path, os.getcwd())
        self.log.append(f"parse {p.rel}")
        o = guarded(api().parse_map, path(given))
        self.ctx.evaluated()
        if not o.ok:
            self.fail(f"{p.rel} did not parse: {explain(o.exc)}")
        got = project.any_(o.value)
        d = project.diff_map(p.expected(given), got)
        if d:
            self.fail(f"{p.rel} does not read as its files now say:\n" + project.show(d))
        self.ctx.count("parses compared")
        self.record(p.rel, o.value, got)

    def parse_own(self):
        self.log.append("parse own tileset")
        o = guarded(api().parse_tileset, path(self.own_path))
        self.ctx.evaluated()
        if not o.ok:
            self.fail(f"tileset did not parse: {explain(o.exc)}")
        got = project.any_(o.value)
        d = project.diff(expect.tileset(self.own, 1, None, self.own_fmt), got)
        if d:
            self.fail("the tileset does not read as its file now says:\n" + project.show(d))
        self.ctx.count("parses compared")
        self.record("own tileset", o.value, got)

    def parse_world(self):
        self.log.append("parse world")
        o = guarded(api().parse_world, path(self.world_path))
        self.ctx.evaluated()
        if not o.ok:
            self.fail(f"world did not parse: {explain(o.exc)}")
        d = worlds.differences(self.w, os.path.dirname(self.world_path), o.value)
        if d:
            self.fail("the world does not read as its file and directory now say: " + "; ".join(d))
        self.ctx.count("world parses")
        self.record("world", o.value, project.any_(o.value))

    def rewrite(self, full, text):
        """Replace a file's content, keeping what a cache could look at."""
        data = text.encode("utf-8")
        st = os.stat(full)
        # White space at the end keeps the size
        if len(data) > st.st_size:
            self.ctx.count("edits that made a file longer")
        data += b" " * (st.st_size - len(data))
        if self.g.p(0.5):
            with open(full, "r+b") as f:
                f.write(data)
        else:
            tmp = full + ".new"
            with open(tmp, "wb") as f:
                f.write(data)
            os.replace(tmp, full)
        if self.g.p(0.7):
            os.utime(full, ns=(st.st_atime_ns, st.st_mtime_ns))

    def edit(self):
        g = self.g
        self.serial += 1
        p = g.pick(self.projects)
        kind = g.pick(["map", "tileset", "template", "own", "format", "world"])
        if kind == "map":
            p.m["properties"][0]["value"] = tag(self.serial, "map")
        elif kind == "tileset":
            t = g.pick(project_files.externals_of(p.m) or p.m["tilesets"])
            t["class"] = tag(self.serial, "ts")
        elif kind == "format":
            ts = project_files.externals_of(p.m)
            if not ts:
                return
            t = g.pick(ts)
            t["ext"]["fmt"] = {"tmx": "json", "json": "tmx"}[t["ext"]["fmt"]]
        elif kind == "world":
            w, _ = worlds.make(g)
            self.w.clear()
            self.w.update(w)
            self.rewrite(self.world_path, worlds.text(self.w, Style()))
            self.log.append("edit world")
            self.ctx.count("edits: world")
            self.ctx.count("edits seen by the next parse")
            return self.parse_world()
        elif kind == "template":
            t = g.pick(project_files.templates_of(p.m))
            t["object"]["class"] = tag(self.serial, "tpl")
        else:
            self.own["class"] = tag(self.serial, "ts")
            if g.p(0.4):
                self.own_fmt = {"tmx": "json", "json": "tmx"}[self.own_fmt]
            self.rewrite(self.own_path, project_files.doc_tileset(self.own, self.own_fmt, Style()))
            self.log.append("edit own tileset")
            self.ctx.count("edits seen by the next parse")
            return self.parse_own()
        self.log.append(f"edit {kind} of {p.rel}")
        changed = 0
        for q in self.projects:
            for rel, text in q.docs().items():
                if self.files.get(rel) != text:
                    self.files[rel] = text
                    self.rewrite(os.path.join(self.root, rel), text)
                    changed += 1
        if not changed:
            raise AssertionError("an edit changed nothing")
        self.ctx.count("edits: " + kind)
        self.ctx.count("edits seen by the next parse")
        if g.p(0.8):
            self.parse(p)

    def spoil(self):
        if not self.held:
            return
        i = self.g.n(0, len(self.held) - 1)
        what, res, shown, idx = self.held[i]
        self.log.append(f"spoil a result of {what}")
        alias.spoil(res, self.r, self.g.pick([0.1, 0.5, 1.0]))
        self.held[i] = (what, res, None, idx)
        self.ctx.count("results spoiled")
        self.reread()

    def damage(self):
        g = self.g
        p = g.pick(self.projects)
        rel = g.pick(sorted(p.docs()))
        full = os.path.join(self.root, rel)
        with open(full, "rb") as f:
            data = f.read()
        how = g.pick(["cut", "missing", "garbage"])
        self.log.append(f"{how} {rel}, parse {p.rel}")
        if how == "missing":
            os.rename(full, full + ".away")
        else:
            with open(full, "wb") as f:
                f.write(data[:g.n(0, len(data.rstrip()) - 1)] if how == "cut" else b"\xff garbage \0")
        o = guarded(api().parse_map, path(p.path))
        if how == "missing":
            os.rename(full + ".away", full)
        else:
            with open(full, "wb") as f:
                f.write(data)
        if o.ok:
            # whether damage is noticed is another property's matter
            self.ctx.count("damaged files that parsed")
        self.ctx.count("failed parses between")
        if g.p(0.7):
            self.parse(p)

    def directory(self):
        g = self.g
        d = os.path.dirname(self.world_path)
        self.log.append("change the world's directory")
        st = os.stat(d)
        if self.entries and g.p(0.5):
            n = g.pick(sorted(self.entries))
            f = os.path.join(d, n)
            if os.path.isdir(f) and not os.path.islink(f):
                return
            os.rename(f, f + ".x")
            self.entries[n + ".x"] = self.entries.pop(n)
        else:
            _, new = worlds.make(g)
            worlds.populate(d, new)
            for n, k in new.items():
                self.entries.setdefault(n, k)
        if g.p(0.7):
            os.utime(d, ns=(st.st_atime_ns, st.st_mtime_ns))
        self.parse_world()

    def chdir(self):
        d = self.g.pick([self.root, os.path.dirname(self.projects[0].path), "/", os.path.dirname(self.world_path)])
        os.chdir(d)
        self.log.append(f"chdir {os.path.relpath(d, self.root)}")


def case(ctx, r, i):
    g = gen(r)
    w = World(ctx, g, r)
    steps = g.n(8, 25) if ctx.tier == "quick" or g.p(0.7) else g.n(25, 80)
    for _ in range(steps):
        k = r.randrange(20)
        if k < 8:
            w.parse()
        elif k < 13:
            w.edit()
        elif k < 15:
            w.spoil()
        elif k < 17:
            w.damage()
        elif k < 18:
            w.directory()
        elif k < 19:
            w.chdir()
        else:
            w.parse_own()
    ctx.count("steps", steps)
    ctx.distinct(w.log, sorted(w.files))
    ctx.sample("; ".join(w.log))
