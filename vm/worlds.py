"""Random worlds: a world file, a directory around it, and what a parse must give."""
import os
import re

from . import project_files, wjson

FAMILIES = [
    (r"map_(\d+)_(\d+)\.tmx", "map_{}_{}.tmx"),
    (r"map-x(\d+)-y(\d+)\.json", "map-x{}-y{}.json"),
    (r"^lvl(-?\d+)x(-?\d+)\.tmx$", "lvl{}x{}.tmx"),
    (r"(\d+),(\d+)\.tmj", "{},{}.tmj"),
    (r"ow-p(-?\d+)-n(-?\d+)-o0000\.tmx", "ow-p{}-n{}-o0000.tmx"),
    (r"(?:old|new)_(\d+)_(\d+)", "new_{}_{}"),
    (r"(?i)ROOM(\d+)of(\d+)(\.tmx)?", "room{}of{}.tmx"),
    (r"карта(\d+)_(\d+)\.tmx", "карта{}_{}.tmx"),
    (r"f([0-9.]+)_([0-9.]+)z", "f{}_{}z"),
    (r"([+-]?\d+)\s([+-]?\d+)\.tmx", "{} {}.tmx"),
    (r"(\d+)(?=_)_(\d+)\.tmx", "{}_{}.tmx"),
    (r"[a-c]{2}(\d+)-(\d+)(-extra)*\.tmx", "ab{}-{}-extra.tmx"),
    (r"[^0-9]*(\d+)\.(\d+)", "{lead}map{}.{}"),
    (r".*?(\d+)_(\d+)\.tm[xj]", "{lead}{}_{}.tmx"),
    (r"\D+(\d+)\D+(\d+)$", "{lead}a{}b{}"),
    (r"(\d+)\.(\d+)", "{}.{}"),
]


def capture(g, regexp):
    k = g.r.randrange(6)
    if "0-9." in regexp and k < 3:
        return g.pick(["1.5", "0.25", "10.0", ".5", "3."])
    if k == 0:
        return "0"
    if k == 1:
        return g.pick(["007", "00", "0012", "12345", "100"])
    if k == 2 and "-?" in regexp:
        return str(-g.n(1, 200))
    if k == 3 and g.p(0.1):
        return g.pick(["12345678901234568", "0" * 20 + "7", "1" + "0" * 22, "100000000000000000000"])
    if k == 3 and r"\d" in regexp and g.p(0.1):
        return g.pick(["٣", "１２"])
    return str(g.n(0, 30))


def make(g):
    """A model of a world and the entries of its directory."""
    w = {}
    if g.p(0.75):
        w["maps"] = []
        for _ in range(g.many(g.pick([0, 1, 2, 3, 8]))):
            name = g.pick([g.relpath(".tmx").lstrip("/"), "map_1_2.tmx", "lvl0x0.tmx", "sub/m.json", g.ident()])
            if "\0" in name or name.startswith("/") or name.strip("/") == "":
                name = "m.tmx"
            w["maps"].append({"fileName": name, "x": g.num(), "y": g.num(), "width": g.pos(), "height": g.pos()})
    fams = [g.pick(FAMILIES) for _ in range(g.many(g.pick([0, 1, 1, 2, 3]), 40))]
    if fams or g.p(0.5):
        w["patterns"] = []
        for rx, _ in fams:
            p = {"regexp": rx, "multiplierX": g.pick([0, 1, 640, 16, 0.5, g.n(1, 999), g.num()]),
                 "multiplierY": g.pick([0, 1, 640, 16, 0.5, g.n(1, 999), g.num()])}
            for k in ("offsetX", "offsetY"):
                if g.p(0.5):
                    p[k] = g.pick([0, 0, -240, 32, 0.25, g.num()])
            w["patterns"].append(p)
    if g.p(0.6):
        w["onlyShowAdjacentMaps"] = g.boolean()
    entries = {}  # name -> file, dir, fifo, dangling, dirlink
    for rx, form in fams + [g.pick(FAMILIES)]:
        for _ in range(g.many(g.pick([0, 1, 2, 4]) if not g.p(0.01) else 150)):
            lead = g.pick(["", "", ".", "(", "~", "-", "#", " ", "_", "é"])
            name = form.format(capture(g, rx), capture(g, rx), lead=lead)
            k = g.r.randrange(12)
            if k == 0:
                name = "x" + name
            elif k == 1:
                name += g.pick([".bak", "~", " copy", "2"])
            elif k == 2:
                name = name.upper()
            elif k == 3:
                name = name.replace("_", "__").replace("-", "--")
            elif k == 4:
                name = " " + name
            kind = "file" if g.p(0.8) else g.pick(["dir", "dir", "fifo", "dangling", "dirlink"])
            entries.setdefault(name, kind)
    for n in ("notes.txt", "README", "map_.tmx", "map_1_.tmx", "lvlaxb.tmx"):
        if g.p(0.2):
            entries[n] = "file"
    return w, entries


def text(w, st, g=None):
    d = dict(w)
    if g is None or g.p(0.7):
        d["type"] = "world"
    for k in ("maps", "patterns"):
        if k in d:
            d[k] = [wjson.junk({a: wjson.frac(b) if isinstance(b, (int, float)) and not isinstance(b, bool) else b
                                for a, b in x.items()}, st) for x in d[k]]
    return wjson.serialise(wjson.junk(d, st), st)


def populate(d, entries):
    os.makedirs(d, exist_ok=True)
    for n, kind in entries.items():
        p = os.path.join(d, n)
        if os.path.lexists(p):
            continue
        if kind == "file":
            with open(p, "wb") as f:
                f.write(b"not a map \xff\0 at all")
        elif kind == "dir":
            os.mkdir(p)
            with open(os.path.join(p, "map_9_9.tmx"), "wb") as f:
                f.write(b"<map/>")
        elif kind == "fifo":
            os.mkfifo(p)
        elif kind == "dangling":
            os.symlink(os.path.join(d, "no such file"), p)
        else:
            os.symlink(d, p)


def write(root, rel, w, entries, st, g=None):
    p = project_files.write(root, rel, text(w, st, g))
    populate(os.path.dirname(p), entries)
    return p


def normal(p):
    return os.path.normpath(os.path.abspath(p))


def expected(w, d):
    """(explicit entries in order, pattern entries in any order)"""
    explicit = [(normal(os.path.join(d, m["fileName"])), (m["width"], m["height"]), (m["x"], m["y"]))
                for m in w.get("maps", ())]
    found = []
    for p in w.get("patterns", ()):
        for n in os.listdir(d):
            f = os.path.join(d, n)
            m = re.compile(p["regexp"]).match(n)
            if m is None or not os.path.isfile(f):
                continue
            mx, my = p["multiplierX"], p["multiplierY"]
            found.append((normal(f), (mx, my), (float(m.group(1)) * mx + p.get("offsetX", 0),
                                                float(m.group(2)) * my + p.get("offsetY", 0))))
    return explicit, found


def observed(world):
    return [(normal(str(m.map_file)), tuple(m.size), tuple(m.coordinates)) for m in world.maps]


def differences(w, d, world):
    """What is wrong with a parsed world."""
    explicit, found = expected(w, d)
    try:
        got = observed(world)
    except Exception as e:
        return [f"unreadable entries: {e!r}"]
    n = len(explicit)
    out = []
    if got[:n] != explicit:
        i = next(i for i in range(n) if got[i:i + 1] != explicit[i:i + 1])
        out.append(f"map {i}: expected {explicit[i]}, got {got[i:i + 1]}")
    if sorted(got[n:]) != sorted(found):
        miss = [x for x in found if x not in got[n:]]
        more = [x for x in got[n:] if x not in found]
        out.append(f"pattern entries: {len(found)} expected, {len(got) - n} found; missing {miss[:3]}, "
                   f"unexpected {more[:3]}")
    if world.only_show_adjacent is not w.get("onlyShowAdjacentMaps", False):
        out.append(f"only_show_adjacent is {world.only_show_adjacent!r}, "
                   f"expected {w.get('onlyShowAdjacentMaps', False)}")
    if any(isinstance(v, bool) or not isinstance(v, (int, float)) for g in got for v in g[1] + g[2]):
        out.append("sizes or coordinates are no numbers")
    return out
