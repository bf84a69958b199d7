"""C20: the format is told by content; anything else is UnknownFormat."""
import json
import os
import random

from .. import expect, project, project_files
from ..base import explain, guarded
from ..common import api, gen, path, style, templated_map
from ..style import Style

CASES = {"quick": 10200, "thorough": 120000}
RULE = ("A case is either one map project (tilesets, templates, templates' tilesets in either format) whose files get "
        "names and extensions at random (none, wrong, misleading, unicode), leading layouts (blank lines, spaces, "
        "tabs, over 70 kB of them, XML declaration, DOCTYPE, comments, processing instructions) and line ends "
        "(LF, CRLF, CR), compared with the model and with its conventional rendering; or content that is neither "
        "XML nor JSON (empty, blank, text, binary, undecodable, damaged) given as map or tileset, or as tileset of a map of "
        "either format, which must raise UnknownFormat.  Distinct: distinct files and names.")
REQUIRED = {"maps with unconventional files compared": 800, "files with misleading extensions": 1000,
            "blank starts": 300, "neither: given directly as map": 300, "neither: given directly as tileset": 300,
            "neither: tileset of a tmx map": 150, "neither: tileset of a json map": 150,
            "tilesets with unconventional names compared": 200, "documents with CR line ends": 100,
            "templates in unconventional files": 300}
EXT = ["", ".tmx", ".json", ".tsx", ".tx", ".tj", ".tmj", ".tsj", ".xml", ".txt", ".TMX", ".JSON", ".bin", ".tmx.json",
       ".json.tmx", ".png", ".", ".gz", ".js", ".ñ"]
NAMES = ["map", "a b", "x", "тест", ".hidden", "json", "tmx", "<map>", "{}", "-", "1", "map.json", "a.tmx"]


def decorate(g, text, xml):
    """Another layout of the same document, from its first byte on."""
    used = []
    if g.p(0.25):
        text = text.replace("\r\n", "\n").replace("\n", g.pick(["\r", "\r", "\r\n"]))
        used.append("cr" if "\r" in text and "\r\n" not in text else "crlf")
    if xml:
        extra = ""
        for _ in range(g.pick([0, 0, 1, 2])):
            extra += g.pick(["<!-- {\"type\": \"map\"} -->", "<!-- comment\n over lines -->", "<?xml-stylesheet x?>", "\n\n",
                             "<!--x-->", "<!-- é日本 -->", "<!--" + " long" * 15000 + "-->"])
        if g.p(0.2) and text.startswith("<?xml"):
            text = text[text.index("?>") + 2:].lstrip()
        if "<?xml" in text[:10]:
            at = text.index("?>") + 2
            text = text[:at] + extra + text[at:]
        else:
            text = extra + text
    if not xml or not text.startswith("<?xml"):
        if g.p(0.5):
            lead = g.pick(["\n", " ", "\t", "\r\n", "\n\n\n", "   \n\t \n", "\n" * 9000, " " * 9000, " " * 70000, (" " * 50 + "\n") * 1400,
                           "\r", "\r\r \r", "\r\n\r\n  "])
            text = lead + text
            used.append("blank")
    elif g.p(0.3):
        used.append("declaration")
    return text, used


def project_case(ctx, g, r):
    fmt = g.pick(["tmx", "json"])
    m, tps, new = templated_map(g, fmt, rich=True, ts_rich=g.p(0.3))
    root = ctx.fresh("p")
    base = f"{g.rel_dirs()}/map.{fmt}"
    seed = r.random()
    p0, docs0 = project_files.materialise(root, m, fmt, base, Style(random.Random(seed), 0.0))
    o = guarded(api().parse_map, path(p0))
    plain = project.any_(o.value) if o.ok else None
    used = {base}

    def name():
        while True:
            n = f"odd/{g.rel_dirs()}/{g.pick(NAMES)}{g.n(0, 99)}{g.pick(EXT)}"
            if n not in used:
                used.add(n)
                return n

    rel = name()
    for t in project_files.externals_of(m):
        # images are resolved next to the tileset: keep its directory
        d = os.path.dirname(t["ext"]["path"])
        t["ext"] = {"path": d + "/" + os.path.basename(name()), "fmt": t["ext"]["fmt"]}
    for t in tps:
        t["path"] = name()
    st = Style(random.Random(seed), 0.0)
    docs = project_files.documents(m, fmt, rel, st)
    for k, text in docs.items():
        xml = text.lstrip().startswith("<")
        text, how = decorate(g, text, xml)
        project_files.write(root, k, text)
        e = os.path.splitext(k)[1].lower()
        ctx.count("files with misleading extensions", e in ((".json", ".tj", ".tmj", ".tsj", ".js") if xml
                                                            else (".tmx", ".tsx", ".tx", ".xml")))
        ctx.count("blank starts", "blank" in how)
        ctx.count("documents with CR line ends", "cr" in how)
    ctx.count("templates in unconventional files", len(project_files.templates_of(m)))
    p = os.path.join(root, rel)
    o = guarded(api().parse_map, path(p))
    ctx.evaluated()
    if not o.ok:
        ctx.fail(f"{fmt} map {rel!r} did not parse: {explain(o.exc)}; files {sorted(docs)}")
    got = project.any_(o.value)
    got.pop("map_file")
    ctx.distinct(docs)
    if plain is None:
        return ctx.count("conventional renderings that did not parse")
    plain.pop("map_file")
    d = project.diff(plain, got)
    if d:
        ctx.fail(f"{fmt} map {rel!r} differs from its conventional rendering:\n" + project.show(d))
    ctx.count("maps with unconventional files compared")
    ctx.sample(str(sorted(docs)))


def tileset_case(ctx, g, r):
    fmt = g.pick(["tmx", "json"])
    t = g.tileset()
    root = ctx.fresh("p")
    text, how = decorate(g, project_files.doc_tileset(t, fmt, Style()), fmt == "tmx")
    n = g.pick(NAMES) + g.pick(EXT)
    p = project_files.write(root, n, text)
    o = guarded(api().parse_tileset, path(p))
    ctx.evaluated()
    if not o.ok:
        ctx.fail(f"{fmt} tileset {n!r} did not parse: {explain(o.exc)}")
    d = project.diff(expect.tileset(t, 1, None, fmt), project.any_(o.value))
    d = [x for x in d if x[0][0] in ("name", "tile_width", "tiles", "columns")]
    if d:
        ctx.fail(f"{fmt} tileset {n!r}:\n" + project.show(d))
    ctx.count("tilesets with unconventional names compared")
    ctx.distinct(n, text)


def is_json(data):
    """Whether any reader may take this for JSON (UTF-16 and UTF-32 included)."""
    for d in (data, data.decode("utf-8", "replace")):
        try:
            json.loads(d)
            return True
        except (ValueError, RecursionError):
            pass
    return False


def neither(g, r):
    """Bytes that are neither an XML nor a JSON document."""
    while True:
        k = r.randrange(13)
        if k == 0:
            b = b""
        elif k == 1:
            b = "".join(g.pick(" \n\t\r") for _ in range(g.pick([1, 2, 5, 100, 20000]))).encode()
        elif k == 2:
            b = (g.text(0.5, 0) + g.pick(["", "\n", " more text"])).encode("utf-8")
        elif k == 3:
            b = r.randbytes(g.pick([1, 2, 4, 16, 300, 5000]))
        elif k == 4:
            b = g.pick([b"\x89PNG\r\n\x1a\n\0\0\0\rIHDR", b"PK\x03\x04\x14\0", b"\x1f\x8b\x08\0", b"GIF89a", b"\0" * 50,
                        b"%PDF-1.4", b"MZ\x90\0", b"\x7fELF", b"\xff" * 9, b"\xc3", b"\xed\xa0\x80"])
        elif k == 5:
            b = g.pick(["{", "[", "{}}", "[1,2", '{"type": "map"', "{'type': 'map'}", "{type: 1}", '{"a": 1,}', "nul",
                        "tru", "00", "1 2", "1,2", '"open', "'x'", '{"a" 1}', "// comment", "/* */ {}", "{} {}", "- 1",
                        "[1 2]", '{"a": undefined}', '"\\x"', '{"a":"\tb"}', "+1", ".5", "0x10", "[,]", "{,}"]).encode()
            b = g.pick([b"", b"\n", b"  "]) + b + g.pick([b"", b"\n"])
        elif k == 6:
            b = g.pick(["# Tiled map\n", "version: 1.0\nlayers:\n  - a\n", "[map]\nwidth=3\n", "a;b;c\n1;2;3\n", "map",
                        "layers", "lorem ipsum " * 500, "&lt;map/&gt;", "xml <map/>", "﹤map/>", "(map)"]).encode()
        elif k == 7:  # JSON with a byte that is no UTF-8
            b = json.dumps({"type": "map", "name": "abc"}).encode()
            i = g.n(0, len(b))
            b = b[:i] + g.pick([b"\xff", b"\xfe", b"\x80", b"\xc3("]) + b[i:]
        elif k == 8:  # other encodings of a document
            b = g.pick(['{"type": "map"}', "plain"]).encode(g.pick(["utf-16", "utf-32", "utf-16-le", "cp037"]))
        elif k == 9:
            b = b"\n" * g.n(0, 3) + bytes(r.choice(b"abc {}[]\":,0123x\n") for _ in range(g.n(1, 40)))
        elif k == 10:
            b = json.dumps({"type": "map", "layers": [], "width": 3}).encode()
            b = b[:g.n(1, len(b) - 1)]
        elif k == 11:
            b = json.dumps({"type": "map"}).encode() + g.pick([b"\0", b"x", b"{}", b"]", b"<map/>", b","])
        else:
            b = g.pick([b"\0", b"\r", b"\x0b", b"\x0c", b"\x1a", b"\xc2\xa0", b"\xe2\x80\x8b"]) * g.n(1, 3) + g.pick(
                [b"", b"{}", b"text"])
        s = b.strip()
        if s.startswith(b"<") or s.startswith((b"\xef\xbb\xbf",)) or is_json(b) or is_json(s):
            continue
        if b"<" in s[:3] and s[:1] in (b"\xff", b"\xfe", b"\0"):
            continue
        return b


def neither_case(ctx, g, r):
    b = neither(g, r)
    root = ctx.fresh("p")
    k = r.randrange(6)
    n = g.pick(NAMES) + g.pick(EXT)
    p = project_files.write(root, n, b)
    where = ["map", "tileset", "map", "tileset", "of tmx", "of json"][k]
    if k < 4:
        fn = api().parse_map if where == "map" else api().parse_tileset
        o = guarded(fn, path(p))
        ctx.count("neither: given directly as " + where)
    else:
        fmt = where[3:]
        t = g.tileset("t", rich=False)
        t["firstgid"] = 1
        g.external(t, n, "tmx")
        m = g.map([], [t], infinite=False, rich=False)
        q = project_files.write(root, "the map", project_files.doc_map(m, fmt, Style(), ""))
        o = guarded(api().parse_map, path(q))
        where = f"tileset of a {fmt} map"
        ctx.count("neither: " + where)
    ctx.evaluated()
    ctx.distinct(where, n, b)
    what = f"{b[:60]!r} ({len(b)} bytes) in {n!r} as {where}"
    if o.ok:
        ctx.fail(f"{what} gave a result: {str(o.value)[:200]}")
    if not isinstance(o.exc, api().UnknownFormat):
        ctx.fail(f"{what} raised {explain(o.exc)} instead of UnknownFormat")


def case(ctx, r, i):
    g = gen(r, i, 100)
    if i % 2:
        neither_case(ctx, g, r)
    elif g.p(0.2):
        tileset_case(ctx, g, r)
    else:
        project_case(ctx, g, r)


def known(ctx):
    """Text of thousands of opening brackets: neither XML nor JSON."""
    root = ctx.fresh("k")
    p = project_files.write(root, "m.json", "[" * 100000)
    for fn in (api().parse_map, api().parse_tileset):
        o = guarded(fn, path(p))
        if isinstance(o.exc, RecursionError):
            yield "deep-brackets", f"{fn.__name__}: {explain(o.exc)}"
            return
