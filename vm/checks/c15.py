"""C15: colours decode exactly, and malformed colours are refused."""
import json
import os
from xml.sax.saxutils import quoteattr

from .. import project_files
from ..base import explain, guarded
from ..common import api, gen, path
from ..style import Style

N = 64  # cases that share the exhaustive part
CASES = {"quick": 1600, "thorough": 20000}
RULE = ("Direct cases call parse_color on batches: structured and random 6- and 8-digit strings in either and "
        "mixed case, with and without '#' (thorough: all 2^24 six-digit colours and every value of each "
        "component), and on malformed strings of every length 0-12 made by damaging well-formed ones "
        "(other characters incl. unicode digits, white space, signs, prefixes, '#' in other places, trailing "
        "line ends).  Document cases put one colour or malformed text into every place that holds a "
        "colour, in both formats.  The oracle computes components from the digits; a malformed text must raise ValueError "
        "(UnknownFormat where a JSON document carries it).  Distinct: distinct strings and documents.")
REQUIRED = {"well-formed strings": 20000, "malformed strings": 20000, "colours in documents": 500,
            "malformed colours in documents": 500}
MARK = (0x0d, 0x25, 0xd3, 0xb7)
PLACES = ["map background", "layer tint", "nested layer tint", "image layer", "tileset background",
          "tileset image", "text", "template text", "property", "wang colour", "tile property"]
HEX = "0123456789abcdefABCDEF"


def check_good(ctx, parse, s, want):
    o = guarded(parse, s)
    if not o.ok:
        ctx.fail(f"parse_color({s!r}) raised {explain(o.exc)}")
    v = o.value
    got = tuple(getattr(v, n, None) for n in ("red", "green", "blue", "alpha"))
    if got != want or tuple(v) != want or any(type(c) is not int for c in got):
        ctx.fail(f"parse_color({s!r}): expected {want}, got {v!r}")


def spell(r, c, eight=None):
    red, green, blue, alpha = c
    s = f"{red:02x}{green:02x}{blue:02x}"
    if alpha != 255 or (r.random() < 0.5 if eight is None else eight):
        s = f"{alpha:02x}" + s
    k = r.randrange(3)
    s = s.upper() if k == 0 else s if k == 1 else "".join(x.upper() if r.random() < 0.5 else x for x in s)
    return ("#" if r.random() < 0.6 else "") + s


def well_formed(s):
    t = s[1:] if s.startswith("#") else s
    return len(t) in (6, 8) and all(x in HEX for x in t)


BAD = "gGzZ-+_ .xX#,;%()/\\'\"\n\r\t\0é１a٣𝟎Ａⅻ²\u200b\xa0\ufeff\ud800Oo"


def damage(r, s):
    k = r.randrange(14)
    i = r.randrange(len(s) + 1)
    if k < 4 and s:
        i = r.randrange(len(s))
        return s[:i] + r.choice(BAD) + s[i + 1:]
    if k < 6:
        return s[:i] + r.choice(BAD) + s[i:]
    if k == 6:
        return s + r.choice(["\n", " ", "\r\n", "#", "f", "ff", "fff", "\0", "h", ";"])
    if k == 7:
        return r.choice(["0x", "#0x", "##", " #", "\n", "0X", "#-", "#+", "+", "-", " ", "# ", "0", "#0", "rgb"]) + s
    if k == 8:
        return s[:r.randrange(len(s) + 1)]
    if k == 9:
        n = r.choice([0, 1, 2, 3, 4, 5, 7, 9, 10, 11, 12, 16])
        return r.choice(["", "#"]) + "".join(r.choice(HEX) for _ in range(n))
    if k == 10:
        return r.choice(["red", "white", "none", "transparent", "null", "#fff", "#ffff", "rgb(1,2,3)", "0", "", "#",
                         "1,2,3", "255,255,255", "#gggggg", "xyzxyz", "#12 456", "-12345", "+12345", "1_2_34",
                         "#1_2_3_", " 12345", "12345 ", "0x1234", "0b1010", "  ffff", "#-1-1-1", "#+1+1+1+1",
                         "not-a-color", "１２３４５６", "٣٣٣٣٣٣", "#ff00f", "#ff00ff0", "#ff00ff00f"])
    if k == 11:
        return s + s
    if k == 12:
        return "".join(chr(ord(x) + 0xfee0) if x.isascii() and x != "#" else x for x in s)
    return s[::-1] + "#"


def direct(ctx, r, i):
    from pytiled_parser.util import parse_color

    n = 0
    for _ in range(150 if ctx.tier == "quick" else 400):
        c = tuple(r.choice([0, 1, 9, 10, 15, 16, 127, 128, 254, 255, r.randrange(256), r.randrange(256)])
                  for _ in range(3)) + (r.choice([255, 255, 0, 1, 128, r.randrange(256)]),)
        s = spell(r, c)
        check_good(ctx, parse_color, s, c)
        ctx.distinct(s)
        n += 1
        b = damage(r, s)
        if r.random() < 0.1:
            b = damage(r, b)
        if well_formed(b):
            continue
        o = guarded(parse_color, b)
        if o.ok:
            ctx.fail(f"parse_color({b!r}) gave {o.value!r} instead of ValueError")
        if not isinstance(o.exc, ValueError):
            ctx.fail(f"parse_color({b!r}) raised {explain(o.exc)} instead of ValueError")
        ctx.distinct(b)
        ctx.count("malformed strings")
    ctx.count("well-formed strings", n)
    ctx.evaluated(2 * n)


def exhaustive(ctx, part):
    """A share of all 2^24 six-digit colours, and of every value of each component."""
    from pytiled_parser.util import parse_color

    up = part % 2
    fmt = "{:06X}" if up else "#{:06x}"
    step = 1 << 18
    for v in range(part * step, (part + 1) * step):
        c = parse_color(fmt.format(v))
        if c != (v >> 16, v >> 8 & 255, v & 255, 255):
            ctx.fail(f"parse_color({fmt.format(v)!r}) gave {c!r}")
    ctx.count("well-formed strings", step)
    ctx.count("exhausted six-digit colours", step)
    ctx.evaluated(step)


def place(g, where, fmt):
    """A map with exactly one colour, and how to read it back from the result."""
    c = MARK
    m = g.map([], [], infinite=False, rich=False)
    for k in ("backgroundcolor", "properties"):
        m.pop(k, None)
    prop = {"name": "p", "type": "color", "value": c}

    def strip(l):
        for k in ("tintcolor", "properties", "transparentcolor"):
            l.pop(k, None)
        return l

    if where == "map background":
        m["backgroundcolor"] = c
        return m, lambda p: p.background_color
    if where == "property":
        m["properties"] = [prop]
        return m, lambda p: p.properties["p"]
    if where in ("layer tint", "nested layer tint"):
        l = strip(g.pick([g.image_layer, lambda: g.object_layer(objs=[]), lambda: g.group([]),
                          lambda: g.tile_layer(False)])())
        l["tintcolor"] = c
        if where[0] == "l":
            m["layers"] = [l]
            return m, lambda p: p.layers[0].tint_color
        m["layers"] = [strip(g.group([strip(g.group([l]))]))]
        return m, lambda p: p.layers[0].layers[0].layers[0].tint_color
    if where == "image layer":
        l = strip(g.image_layer())
        l["transparentcolor"] = c
        m["layers"] = [l]
        return m, lambda p: p.layers[0].transparent_color
    if where in ("text", "template text"):
        o = {"id": 1, "x": 0, "y": 0, "kind": "Text", "text": {"text": "t", "color": c}}
        if where[0:4] == "temp":
            o = {"id": 1, "x": 0, "y": 0, "template": {"path": "t.x", "fmt": fmt, "tileset": None, "object": o}}
        m["layers"] = [strip(g.object_layer(objs=[o]))]
        return m, lambda p: p.layers[0].tiled_objects[0].color
    t = g.tileset("t", rich=False, collection=False, wang=0, tiles=[])
    for k in ("backgroundcolor", "properties"):
        t.pop(k, None)
    t["image"] = {"source": "a.png", "width": 8, "height": 8}
    t["firstgid"] = 1
    m["tilesets"] = [t]
    if where == "tileset background":
        t["backgroundcolor"] = c
        return m, lambda p: p.tilesets[1].background_color
    if where == "tileset image":
        t["image"]["trans"] = c[:3] + (255,)
        return m, lambda p: p.tilesets[1].transparent_color
    if where == "tile property":
        t["tiles"] = [{"id": 0, "properties": [prop]}]
        return m, lambda p: p.tilesets[1].tiles[0].properties["p"]
    t["wangsets"] = [{"name": "w", "type": "edge", "tile": -1, "tiles": [],
                      "colors": [{"name": "c", "color": c, "tile": -1, "probability": 1}]}]
    return m, lambda p: p.tilesets[1].wang_sets[0].wang_colors[0].color


def documents(ctx, r, i):
    g = gen(r)
    fmt = g.pick(["tmx", "json"])
    where = PLACES[i % len(PLACES)]
    m, read = place(g, where, fmt)
    mixed = False
    for t in m["tilesets"]:
        if g.p(0.5):
            f = g.pick(["tmx", "json"])
            mixed = f == "json"
            g.external(t, f"sub/t.{f}", f)
    docs = project_files.documents(m, fmt, "map." + fmt, Style())
    bad = g.p(0.5)
    while True:
        c = tuple(r.randrange(256) for _ in range(3)) + (r.choice([255, r.randrange(256)]),)
        s = spell(r, c)
        if not bad:
            break
        s = damage(r, s) if r.random() < 0.75 else r.choice(["", "", "#", "f", "##" + s])
        # A property that is not set is another matter (C06); XML has no such characters and folds white space
        if (s or "property" not in where) and not well_formed(s) and not any(x in s for x in "\0\ud800\r\n\t"):
            break
    marks = ["#b70d25d3", "#0d25d3", "b70d25d3", "0d25d3"]
    hits = 0
    for k, text in docs.items():
        for mk in marks:
            if '"' + mk + '"' in text:
                as_json = k.endswith("json") or (fmt == "json" and not k.startswith("sub/"))
                docs[k] = text.replace('"' + mk + '"', json.dumps(s) if as_json else quoteattr(s))
                hits += 1
                break
    if hits != 1:
        raise AssertionError(f"{where}: {hits} places for the colour")
    root = ctx.fresh("p")
    for k, text in docs.items():
        project_files.write(root, k, text)
    o = guarded(api().parse_map, path(os.path.join(root, "map." + fmt)))
    ctx.evaluated()
    ctx.distinct(docs)
    ctx.sample(f"{where} with {s!r}\n" + docs["map." + fmt])
    if bad:
        ctx.count("malformed colours in documents")
        ctx.count("malformed: " + where)
        if o.ok:
            v = guarded(read, o.value)
            ctx.fail(f"{fmt} {where}: the malformed colour {s!r} gave {v.value if v.ok else v.exc!r}")
        unknown = type(o.exc).__name__ == "UnknownFormat" and (fmt == "json" or mixed)
        if not (isinstance(o.exc, ValueError) or unknown):
            ctx.fail(f"{fmt} {where}: the malformed colour {s!r} raised {explain(o.exc)}")
        return
    if not o.ok:
        ctx.fail(f"{fmt} {where}: the colour {s!r} raised {explain(o.exc)}")
    v = guarded(read, o.value)
    if not v.ok or v.value is None or tuple(v.value) != c or not hasattr(v.value, "alpha"):
        ctx.fail(f"{fmt} {where}: the colour {s!r} should be {c}, got {v.value if v.ok else v.exc!r}")
    ctx.count("colours in documents")
    ctx.count("colours in " + where)


def case(ctx, r, i):
    if ctx.tier == "thorough" and i < N:
        exhaustive(ctx, i)
    elif i % 8 == 0:
        direct(ctx, r, i)
    else:
        documents(ctx, r, i)
