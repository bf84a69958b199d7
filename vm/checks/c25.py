"""C25: work grows in proportion to the document."""
import copy
import gc
import os
import time
import tracemalloc

from .. import project_files, worlds
from ..base import explain, guarded
from ..common import api, gen, path
from ..style import Style
from ..work import TooMuch, Work

COUNTED = {"quick": 488, "thorough": 6000}
TIMED = {"quick": 112, "thorough": 960}
CASES = {t: COUNTED[t] + TIMED[t] for t in COUNTED}
CPU_LIMIT = 300
RULE = ("A case is one dimension of a document (cells, chunks, layers, nesting, objects, points, properties, tiles, frames, collision "
        "shapes, tilesets, template instances, templates, wang sets, colours and tiles, world maps, patterns and directory entries, texts, blank lines, unknown content, digits of numbers) in one "
        "format, grown n, 4n, 16n times out of a pool of random units while everything else stays, so that the document grows "
        "exactly in proportion.  The monitor counts interpreter events (statements, branches, calls; all Python code, the "
        "library's included), files opened and bytes behind them, and compares the cost of one more unit between the two steps.  "
        "Timed cases let one dimension grow from thousands of units to four times as many, and compare the least processor time "
        "of several parses, for work inside of single statements; more than twice the proportion, on three more "
        "measurements, breaks the property.  "
        "Distinct: distinct documents.")
REQUIRED = {"measured parses": 1200, "growths compared": 400, "dimensions": 400, "maps of a hundred nested groups": 30, "times compared": 90,
            "peaks of memory compared": 4}
SLACK = 1.08


class Doc:
    """A document set under construction: a map, or a tileset or world of its own."""

    def __init__(self, g):
        self.g = g
        self.m = g.map([], [], infinite=False, rich=False)
        self.kind = "map"
        self.ts = None
        self.entries = {}


def unit_layers(g, kind, inf=False):
    if kind == "tile":
        return g.tile_layer(inf, rich=g.p(0.3), dims=(2, 2))
    if kind == "object":
        return g.object_layer(rich=g.p(0.3), count=1, gids=True)
    if kind == "image":
        return g.image_layer(rich=g.p(0.3))
    return g.group([], rich=g.p(0.3))


def pooled(g, make, n, size=4):
    """n units out of a pool, the same share of each (n is a multiple of the pool's size)."""
    pool = g.memo("pool", lambda: [make() for _ in range(size)])
    return [pool[i % size] for i in range(n)]


class Memo:
    """One random source for the three sizes: what is drawn first is kept."""

    def __init__(self, g):
        self.g, self.kept = g, {}

    def __getattr__(self, name):
        return getattr(self.g, name)

    def memo(self, key, f):
        if key not in self.kept:
            self.kept[key] = f()
        return copy.deepcopy(self.kept[key])


ENC = ["array", "csv", "base64", "base64-zlib", "base64-gzip"]


def names(items, key="name", form="{} {}"):
    out = []
    for i, x in enumerate(items):
        x = dict(x)
        x[key] = form.format(x[key], i)
        out.append(x)
    return out


def numbered(items, first=0, key="id"):
    return [dict(x, **{key: first + i}) for i, x in enumerate(items)]


def fresh_tileset(g, **kw):
    return dict({"name": "ts", "tilewidth": 8, "tileheight": 8, "columns": 4, "tilecount": 16, "spacing": 0, "margin": 0}, **kw)


def with_layers(d, layers):
    d.m["layers"] = layers


def cells(d, g, n, fmt, wide=False, chunk=False):
    enc = g.memo("enc", lambda: g.pick(ENC if fmt == "json" else ["xml"] + ENC[1:]))
    w, h = (n * 4, 3) if wide else (3, n * 4)
    l = {"kind": "TileLayer", "name": "l", "width": w, "height": h, "_enc": enc}
    grid = [[(x * 40503 + y * 2654435761 + x * y * 97) % 0xFFFFFFF for x in range(w)] for y in range(h)]
    if chunk:
        d.m["infinite"] = True
        l["chunks"] = [{"x": 0, "y": 0, "width": w, "height": h, "grid": grid}]
    else:
        l["data"] = grid
    with_layers(d, [l])


def chunks(d, g, n, fmt):
    enc = g.memo("enc", lambda: g.pick(ENC if fmt == "json" else ["xml"] + ENC[1:]))
    d.m["infinite"] = True
    grid = g.memo("grid", lambda: g.cells(3, 2))
    with_layers(d, [{"kind": "TileLayer", "name": "l", "width": 3, "height": 2, "_enc": enc,
                     "chunks": [{"x": 3 * i, "y": 0, "width": 3, "height": 2, "grid": grid} for i in range(n)]}])


def layers(kind, within=0):
    def build(d, g, n, fmt):
        ls = pooled(g, lambda: unit_layers(g, kind if kind != "mixed" else g.pick(["tile", "object", "image", "group"])), n)
        for l in ls:
            if l["kind"] == "TileLayer":
                l["_enc"] = "csv"
        for _ in range(within):
            ls = [{"kind": "LayerGroup", "name": "g", "layers": ls}]
        with_layers(d, ls)
    return build


def nested(leaf):
    """n levels of groups, with a layer on each (or only innermost)."""
    def build(d, g, n, fmt):
        x = []
        unit = g.memo("unit", lambda: unit_layers(g, leaf) if leaf not in ("none", "end") else None)
        if leaf == "end":
            x = [g.memo("end", lambda: unit_layers(g, "object"))]
        if unit is not None and unit["kind"] == "TileLayer":
            unit["_enc"] = "csv"
        for i in range(n):
            x = [{"kind": "LayerGroup", "name": "g", "layers": ([unit] if unit else []) + x}]
        with_layers(d, x)
    build.sizes = (6, 24, 96)
    return build


def objects(kinds, spread=False, depth=0, props=0.3):
    def build(d, g, n, fmt):
        os_ = numbered(pooled(g, lambda: g.object(kinds, props=props), n), 1)
        ls = [{"kind": "ObjectLayer", "name": "o", "objects": o} for o in ([[x] for x in os_] if spread else [os_])]
        for _ in range(depth):
            ls = [{"kind": "LayerGroup", "name": "g", "layers": ls}]
        with_layers(d, ls)
    return build


def points(kind):
    def build(d, g, n, fmt):
        ps = g.memo("ps", lambda: [(g.num(), g.num()) for _ in range(4)]) * (n // 4)
        with_layers(d, [{"kind": "ObjectLayer", "name": "o", "objects": [
            {"id": 1, "x": 0, "y": 0, "kind": kind, "points": ps}]}])
    return build


def properties(where):
    def build(d, g, n, fmt):
        ps = names(pooled(g, g.prop, n))
        if where == "map":
            d.m["properties"] = ps
        elif where == "layer":
            with_layers(d, [dict(g.memo("l", lambda: unit_layers(g, g.pick(["object", "image", "group"]))), properties=ps)])
        elif where == "object":
            with_layers(d, [{"kind": "ObjectLayer", "name": "o", "objects": [
                dict(g.memo("o", lambda: g.object(["Rectangle", "Text", "Tile"])), properties=ps)]}])
        else:
            d.ts = fresh_tileset(g)
            if where == "tileset":
                d.ts["properties"] = ps
            elif where == "tile":
                d.ts["tiles"] = [{"id": 3, "properties": ps}]
            else:
                w = {"name": "w", "type": "edge", "tile": 0, "colors": [], "tiles": []}
                if where == "wang set":
                    w["properties"] = ps
                else:
                    w["colors"] = [{"name": "c", "color": (1, 2, 3, 255), "tile": 0, "probability": 1, "properties": ps}]
                d.ts["wangsets"] = [w]
    return build


def tiles(collection=False, animation=False, collision=False):
    def build(d, g, n, fmt):
        def make():
            t = g.tile(0, collection)
            if animation:
                t["animation"] = g.frames()
            if collision:
                t["objectgroup"] = g.object_layer(gids=False, count=2)
            return t

        d.ts = fresh_tileset(g, tilecount=n, tiles=numbered(pooled(g, make, n)))
    return build


def in_tile(what):
    def build(d, g, n, fmt):
        t = {"id": 1}
        if what == "frames":
            t["animation"] = g.memo("f", lambda: [(g.n(0, 9), 100) for _ in range(4)]) * (n // 4)
        else:
            t["objectgroup"] = {"kind": "ObjectLayer", "name": "",
                                "objects": numbered(pooled(g, lambda: g.object(gids=False), n), 1)}
        d.ts = fresh_tileset(g, tiles=[t])
    return build


def wang(what):
    def build(d, g, n, fmt):
        w = {"name": "w", "type": "mixed", "tile": -1, "colors": [], "tiles": []}
        color = lambda: {"name": g.ident(), "color": g.color(), "tile": 0, "probability": 1}
        if what == "colours":
            w["colors"] = pooled(g, color, n)
        elif what == "tiles":
            ids = g.memo("ids", lambda: [g.n(0, 9) for _ in range(8)])
            w["tiles"] = [(i, ids) for i in range(n)]
        sets = [w]
        if what == "sets":
            sets = pooled(g, lambda: {"name": g.ident(), "type": "edge", "tile": 0, "colors": [color()],
                                      "tiles": [(1, [1, 0] * 4)]}, n)
        d.ts = fresh_tileset(g, wangsets=sets)
    return build


def tilesets(ext):
    def build(d, g, n, fmt):
        ts = names(pooled(g, lambda: g.tileset("t", rich=False, wang=0.2, tiles=[0, 1]), n))
        for i, t in enumerate(ts):
            t["firstgid"] = 1 + 1000 * i
            if ext:
                t["ext"] = {"path": f"ts/{i:04}.x", "fmt": ext if ext != "mixed" else ["tmx", "json"][i % 2]}
        d.m["tilesets"] = ts
    if ext:
        build.sizes = (8, 32, 128)
    return build


def instances(kind, declared=True, distinct=False, own_tilesets=False, beside=0, depth=0, spread=False):
    """n instances of one template, of n templates, or of n templates with n tilesets."""
    def build(d, g, n, fmt):
        def template():
            t = g.template("tpl", fmt, kind, base)
            return t

        base = g.memo("base", lambda: fresh_tileset(g, name="base", image={"source": "a.png", "width": 32, "height": 32}))
        base["ext"] = {"path": "base.x", "fmt": g.memo("bf", lambda: g.pick(["tmx", "json"]))}
        t0 = g.memo("t0", template)
        inst = g.memo("inst", lambda: [dict(g.instance({"object": t0["object"]}), template=None) for _ in range(4)])
        objs = []
        t0["path"] = "tpl/0.x"
        if kind == "Tile":
            t0["tileset"] = base
        for i in range(n):
            t = t0
            if distinct:
                t = dict(t0, path=f"tpl/{i:04}.x")
                if own_tilesets:
                    t["tileset"] = dict(base, name=f"own {i:04}", ext={"path": f"own/{i:04}.x", "fmt": base["ext"]["fmt"]})
            objs.append(dict(inst[i % 4], id=i + 1, template=t))
        if kind == "Tile" and declared and not own_tilesets:
            d.m["tilesets"] = [dict(base, firstgid=1)]
        for i in range(beside):
            d.m["tilesets"].append(dict(fresh_tileset(g), name=f"beside {i}", firstgid=1000 * (i + 1)))
        ls = [{"kind": "ObjectLayer", "name": "o", "objects": o} for o in ([[x] for x in objs] if spread else [objs])]
        for _ in range(depth):
            ls = [{"kind": "LayerGroup", "name": "g", "layers": ls}]
        with_layers(d, ls)
    build.sizes = (8, 32, 128)
    return build


def world(what):
    def build(d, g, n, fmt):
        d.kind = "world"
        d.m = {"maps": [], "patterns": []}
        if what == "maps":
            d.m["maps"] = [{"fileName": f"m{i:04}.tmx", "x": i, "y": 0, "width": 1, "height": 1} for i in range(n)]
        else:
            form = "map_{:04}_0000.tmx" if what != "other files" else "other {:04}"
            k = 16 if what == "patterns" else n
            for i in range(k):
                d.entries[form.format(i)] = "file"
            d.m["patterns"] = [{"regexp": r"map_(\d+)_(\d+)\.tmx", "multiplierX": 1, "multiplierY": 2}] * (
                n if what == "patterns" else 1)
    if what != "maps":
        build.sizes = (8, 32, 128)
    return build


def texts(where):
    """One text of n words."""
    def build(d, g, n, fmt):
        words = g.memo("words", lambda: [g.ident() for _ in range(16)])
        text = " ".join(words[i % 16] for i in range(n))
        p = [{"name": "p", "type": "string", "value": text}]
        o = {"id": 1, "x": 1, "y": 2, "kind": "Rectangle"}
        if where == "text":
            o.update(kind="Text", text={"text": text})
        elif where == "property":
            o["properties"] = p
        elif where == "property name":
            o["properties"] = [{"name": text, "type": "int", "value": 3}]
        elif where == "file name":
            o["properties"] = [{"name": "p", "type": "file", "value": text.replace(" ", "/")}]
        else:
            o["name"] = text
        with_layers(d, [{"kind": "ObjectLayer", "name": "o", "objects": [o]}])
    return build


def unknown(what):
    """n things that mean nothing."""
    def post(p, fmt, n):
        with open(p) as f:
            s = f.read()
        if what == "lines":
            s = "".join(["\n", "  \n", "\t\n", "\r\n"][i % 4] for i in range(n)) + s
        elif fmt == "tmx":
            s = s.replace("</map>", "".join(f'<unknown{i % 4} a="{i}"><x/>text</unknown{i % 4}>' for i in range(n)) + "</map>")
        else:
            s = s.replace("{", "{" + "".join(f'"unknown {i:05}": [{{"a": 1}}],' for i in range(n)), 1)
        with open(p, "w") as f:
            f.write(s)

    def build(d, g, n, fmt):
        with_layers(d, [g.memo("l", lambda: unit_layers(g, g.pick(["object", "image", "group"])))])
        d.decl = 0 if what == "lines" else 1
        d.post = lambda p: post(p, fmt, n)
    return build


def numbers(d, g, n, fmt):
    """The same things, whose numbers have n digits."""
    v = 10 ** n
    m = d.m
    m.update(infinite=True, width=v, height=v, nextlayerid=v, nextobjectid=v, hexsidelength=v, parallaxoriginx=v, parallaxoriginy=-v)
    text = [("id", v), ("offsetx", v), ("offsety", -v)]
    colls = {"kind": "ObjectLayer", "name": "", "objects": [{"id": v, "x": v, "y": v, "width": v, "height": v, "kind": "Ellipse"}]}
    image = {"source": "a.png", "width": v, "height": v}
    a = fresh_tileset(g, name="a", tilecount=v, columns=v, tilewidth=v, tileheight=v, image=image, firstgid=1, tiles=[
        {"id": v - 1, "x": v, "y": v, "width": v, "height": v, "animation": [(v - 1, v), (0, v)], "objectgroup": colls}],
        wangsets=[{"name": "w", "type": "edge", "tile": v - 1, "colors": [{"name": "c", "color": (1, 2, 3, 255), "tile": v - 1, "probability": v}],
                   "tiles": [(v - 1, [0, 1] * 4)]}])
    b = fresh_tileset(g, name="b", tilecount=2, columns=0, firstgid=v + 1, tiles=[{"id": 0, "image": image}, {"id": v // 2, "image": image}])
    new = fresh_tileset(g, name="new", tilecount=v // 8, columns=v // 8, image=image, ext={"path": "new.x", "fmt": g.memo("nf", lambda: g.pick(["tmx", "json"]))})
    m["tilesets"] = [a, b]
    enc = g.memo("enc", lambda: g.pick(ENC if fmt == "json" else ["xml"] + ENC[1:]))
    tpl = {"path": "t.x", "fmt": fmt, "tileset": new, "object": {"kind": "Tile", "gid": v // 8, "width": v, "height": v}}
    os_ = [{"id": v, "x": v, "y": -v, "kind": "Tile", "gid": v, "width": v, "height": v},
           {"id": v + 1, "x": v, "y": -v, "kind": "Polygon", "points": [(0, 0), (v, v), (-v, v)]},
           {"id": v + 2, "x": v, "y": -v, "kind": "Text", "text": {"text": "x", "pixelsize": v}, "rotation": v,
            "properties": [{"name": "i", "type": "int", "value": v}, {"name": "f", "type": "float", "value": v + 0.5}]},
           {"id": v + 3, "x": v, "y": -v, "template": tpl}]
    with_layers(d, [
        dict(text, kind="TileLayer", name="l", width=v, height=v, _enc=enc, chunks=[{"x": v, "y": -v, "width": 2, "height": 1, "grid": [[v, 1]]}]),
        dict(text, kind="ObjectLayer", name="o", objects=os_), dict(text, kind="LayerGroup", name="g", layers=[])])


numbers.sizes = (2, 4, 8)
numbers.memory = True


DIMENSIONS = {
    "rows": cells, "columns": lambda d, g, n, f: cells(d, g, n, f, wide=True),
    "rows of a chunk": lambda d, g, n, f: cells(d, g, n, f, chunk=True), "chunks": chunks,
    "tile layers": layers("tile"), "object layers": layers("object"), "image layers": layers("image"), "groups": layers("group"),
    "mixed layers": layers("mixed"), "layers within a group": layers("mixed", 1), "layers within groups": layers("mixed", 5),
    "nesting": nested("none"), "nesting above an object layer": nested("end"), "nesting with tile layers": nested("tile"),
    "nesting with object layers": nested("object"), "nesting with image layers": nested("image"),
    "objects": objects(None), "objects with properties": objects(None, props=1), "objects in layers of their own": objects(None, True),
    "objects in groups": objects(None, depth=4), "texts": objects(["Text"]), "tile objects": objects(["Tile"]),
    "points of a polygon": points("Polygon"), "points of a polyline": points("Polyline"),
    **{f"properties of a {w}": properties(w) for w in ("map", "layer", "object", "tileset", "tile", "wang set", "wang colour")},
    "tiles": tiles(), "tiles with images": tiles(True), "animated tiles": tiles(animation=True), "tiles with collision": tiles(collision=True),
    "frames": in_tile("frames"), "collision objects": in_tile("objects"),
    **{f"wang {w}": wang(w) for w in ("sets", "colours", "tiles")},
    "embedded tilesets": tilesets(None), "external tilesets": tilesets("mixed"), "TSX tilesets": tilesets("tmx"),
    "instances": instances(None), "tile instances": instances("Tile"), "instances of new tilesets": instances("Tile", False),
    "instances in groups": instances("Tile", False, depth=3), "instances in layers": instances("Tile", spread=True),
    "instances beside tilesets": instances("Tile", beside=12), "templates": instances(None, distinct=True),
    "tile templates": instances("Tile", distinct=True), "templates with tilesets": instances("Tile", False, True, True),
    **{f"words of a {w}": texts(w) for w in ("text", "property", "property name", "file name", "name")},
    "blank lines before it": unknown("lines"), "unknown things": unknown("things"), "digits of its numbers": numbers,
    "world maps": world("maps"), "world files": world("files"), "other files": world("other files"), "patterns": world("patterns"),
}
NAMES = sorted(DIMENSIONS)


def prepare(ctx, d, fmt, n, alone):
    root = os.path.join(ctx.dir, f"n{n}")
    if d.kind == "world":
        p, fn = worlds.write(root, "w.world", d.m, d.entries, Style(indent=None)), "parse_world"
    elif d.ts is not None and alone:
        p = project_files.write(root, "t." + fmt, project_files.doc_tileset(d.ts, fmt, Style(indent=None)))
        fn = "parse_tileset"
    else:
        if d.ts is not None:
            d.m["tilesets"] = [dict(d.ts, firstgid=1)]
        p, _ = project_files.materialise(root, d.m, fmt, "m." + fmt, Style(indent=None, decl=getattr(d, "decl", 1)))
        if hasattr(d, "post"):
            d.post(p)
        fn = "parse_map"
    return getattr(api(), fn), path(p)


def measure(ctx, d, fmt, n, budget, alone):
    f, arg = prepare(ctx, d, fmt, n, alone)
    with Work(budget) as w:
        o = guarded(f, arg)
    ctx.count("measured parses")
    ctx.count("interpreter events observed", w.events)
    ctx.count("files opened", w.opens)
    return o, w


SLOW = [n for n in NAMES if not hasattr(DIMENSIONS[n], "sizes") or n in ("world files", "other files", "patterns")]


def seconds(ctx, f, arg, label, times=3):
    best = None
    for _ in range(times):
        gc.collect()
        gc.disable()
        t0, n, t = time.process_time(), 0, 0
        while t < 0.08:  # the clock may tick in steps of several milliseconds
            o = guarded(f, arg)
            t = time.process_time() - t0
            n += 1
            if not o.ok:
                ctx.fail(f"{label} did not parse: {explain(o.exc)}")
            del o
        gc.enable()
        t /= n
        ctx.count("timed parses", n)
        best = t if best is None else min(best, t)
        if best > 5:
            break
    return best


def timed(ctx, r, i):
    g = Memo(gen(r))
    name = SLOW[i % len(SLOW)]
    fmt = ["tmx", "json"][(i // len(SLOW)) % 2]
    build = DIMENSIONS[name]
    n = {"rows": 1000, "columns": 1000, "rows of a chunk": 1000, "patterns": 500, "blank lines before it": 20000}.get(name, 4000)
    alone = g.p(0.5)
    base = g.memo("map", lambda: Doc(g.g).m)
    jobs = {}

    def job(n):
        if n not in jobs:
            d = Doc.__new__(Doc)
            d.g, d.m, d.kind, d.ts, d.entries = g, copy.deepcopy(base), "map", None, {}
            build(d, g, n, fmt)
            jobs[n] = prepare(ctx, d, fmt, n, alone)
        return jobs[n] + (f"{fmt} document of {n} {name}",)

    seconds(ctx, *job(n), 1)
    a, b = seconds(ctx, *job(n)), seconds(ctx, *job(4 * n))
    ctx.evaluated()
    ctx.count("times compared")
    ctx.distinct("time", name, fmt, i)
    ctx.sample(f"{fmt}, {name}: {n}, {4 * n} of them take {a:.4f}, {b:.4f} s")
    for _ in range(3):
        if b <= 8 * a:
            return
        ctx.count("times measured again")
        ctx.notes[f"again {i}"] = f"{fmt} {name} {a:.4f} {b:.4f}"
        a, b, c = seconds(ctx, *job(n), 5), seconds(ctx, *job(4 * n), 5), seconds(ctx, *job(8 * n))
        if c <= 3 * b:
            return
    ctx.fail(f"{fmt} document, {name}: {n}, {4 * n}, {8 * n} of them take {a:.3f}, {b:.3f}, {c:.3f} s of processor time")


def case(ctx, r, i):
    if i >= COUNTED[ctx.tier]:
        return timed(ctx, r, i - COUNTED[ctx.tier])
    g = Memo(gen(r))
    name = NAMES[i % len(NAMES)]
    build = DIMENSIONS[name]
    fmt = ["tmx", "json"][(i // len(NAMES)) % 2]
    sizes = getattr(build, "sizes", (16, 64, 256))
    big = 2 if ctx.tier == "thorough" and "nesting" not in name and g.p(0.3) else 1
    sizes = tuple(n * big for n in sizes)
    alone = g.p(0.5)
    base = g.memo("map", lambda: Doc(g.g).m)
    seen, peaks = [], []
    budget = 3_000_000
    for n in sizes:
        d = Doc.__new__(Doc)
        d.g, d.m, d.kind, d.ts, d.entries = g, copy.deepcopy(base), "map", None, {}
        build(d, g, n, fmt)
        label = f"{fmt} document of {n} {name}"
        if not seen:
            measure(ctx, d, fmt, n, budget, alone)  # what only the first parse does must not count
        o, w = measure(ctx, d, fmt, n, budget, alone)
        if isinstance(o.exc, TooMuch):
            ctx.fail(f"{label}: over {budget} events ({', '.join(f'{m}: {x.events}' for m, x in seen)} before); {o.exc}")
        if not o.ok:
            ctx.fail(f"{label} did not parse: {explain(o.exc)}")
        if hasattr(build, "memory"):
            f, arg = prepare(ctx, d, fmt, n, alone)
            tracemalloc.start()
            guarded(f, arg)
            peaks.append(tracemalloc.get_traced_memory()[1])
            tracemalloc.stop()
        seen.append((n, w))
        ctx.evaluated()
        # Six times what proportion would allow is no proportion
        budget = max(w.events * 4 * 6, 200_000)
    ctx.count("maps of a hundred nested groups", "nesting" in name)
    (n0, a), (n1, b), (n2, c) = seen
    for what, free in (("events", 40), ("opens", 1), ("bytes", 600)):
        x, y, z = (getattr(w, what) for w in (a, b, c))
        first, second = (y - x) / (n1 - n0), (z - y) / (n2 - n1)
        if (z - y) > SLACK * (y - x) * (n2 - n1) / (n1 - n0) + free:
            ctx.fail(f"{fmt} document, {name}: {n0}, {n1}, {n2} of them cost {x}, {y}, {z} {what}: the cost of one more grew from "
                     f"{first:.1f} to {second:.1f}.  Most in: {c.top(b)}")
    if peaks:
        ctx.count("peaks of memory compared")
        if peaks[2] > peaks[0] + 200_000:
            ctx.fail(f"{fmt} document, {name}: {n0}, {n1}, {n2} of them take up to {peaks[0]}, {peaks[1]}, {peaks[2]} bytes of memory")
    ctx.count("growths compared")
    ctx.count("dimensions")
    ctx.distinct(name, fmt, i)
    ctx.sample(f"{fmt}, {name}: {n0}, {n1}, {n2} of them cost {a.events}, {b.events}, {c.events} events, "
               f"{a.opens}, {b.opens}, {c.opens} opens, {a.bytes}, {b.bytes}, {c.bytes} bytes")
