"""C22: irrelevant differences in how a document is written do not matter."""
import copy
import os
import random

from .. import project, project_files, rewrite, worlds
from ..base import explain, guarded
from ..common import api, gen, path, templated_map
from ..style import Style

CASES = {"quick": 10000, "thorough": 80000}
RULE = ("A case is one document set (a map of either format with its tilesets and templates, a tileset, or a world) "
        "written twice: in the plainest spelling, and with one kind of rewriting or all of them at once (attribute and key order, "
        "layout, escapes, comments, number spellings, defaults spelled out, unknown attributes, elements and keys "
        "at any place, quotes, declaration, DOCTYPE, CDATA, line ends).  The oracle is the equality of the two results.  Distinct: "
        "distinct documents.")
KNOBS = {
    "order": dict(shuffle=True), "no indentation": dict(indent=None), "tabs": dict(indent="\t"), "flush": dict(indent=""),
    "crlf": dict(newline="\r\n"), "no declaration": dict(decl=0), "short declaration": dict(decl=3), "doctype": dict(doctype=True),
    "comments": dict(comments=0.6), "unknown": dict(unknown=0.6), "defaults": dict(defaults=1), "some defaults": dict(defaults=0.4),
    "quotes": dict(quote="'"), "empty elements": dict(selfclose=False), "references": dict(charref=1), "cdata": dict(cdata=0.7),
    "numbers": dict(numbers=0.8), "ascii": dict(ascii=True), "slashes": dict(slash=True), "tight": dict(tight=True),
    "trailing": dict(trailing=" \n\n\t"), "leading": dict(leading="\n \n", decl=0), "values as text": dict(multiline="attr"),
    "rewritten": {}, "everything": None,
}
REQUIRED = {"rewritten: " + k: 25 for k in KNOBS}
REQUIRED.update({"pairs of maps": 1300, "pairs of tilesets": 120, "pairs of worlds": 120, "unknown elements": 500,
                 "unknown attributes": 500, "unknown keys": 500})


def variant(r, knob):
    if knob == "everything":
        return Style(random.Random(r.random()), 1.0, class_name="class", on=True)
    st = Style(None, **KNOBS[knob])
    st.r = random.Random(r.random())
    return st


def parse(ctx, fn, p, label):
    o = guarded(getattr(api(), fn), path(p))
    ctx.evaluated()
    if not o.ok:
        ctx.fail(f"{label} did not parse: {explain(o.exc)}")
    v = project.any_(o.value)
    if isinstance(v, dict) and fn == "parse_world":
        v["maps"] = sorted(v["maps"], key=lambda m: (repr(m["map_file"]), m["coordinates"], m["size"]))
    return v


def case(ctx, r, i):
    g = gen(r, i, 100)
    knob = g.pick(list(KNOBS))
    kind = g.pick(["map"] * 8 + ["tileset", "world"])
    fmt = g.pick(["tmx", "json"])
    # Both spellings are written at the same place, one after the other
    root = os.path.join(ctx.dir, "p")
    res, docs = [], []
    if kind == "map":
        if g.p(0.35):
            m, _, _ = templated_map(g, fmt, rich=True, ts_rich=True)
        else:
            inf = g.p(0.3)
            ts = g.place_tilesets([g.tileset(f"ts{k} {g.text()}") for k in range(g.pick([0, 1, 2]))])
            for k, t in enumerate(ts):
                if g.p(0.4):
                    g.external(t, f"{g.rel_dirs()}/{g.stem(f"ts{k}")}.x", g.pick(["tmx", "json"]))
            m = g.map(g.forest(inf, g.pick([0, 1, 2]), 4), ts, infinite=inf)
        fix_encodings(g, m["layers"], fmt)
        rel = f"{g.rel_dirs()}/{g.stem("map")}.{fmt}"
        fn = "parse_map"
    elif kind == "tileset":
        m, rel, fn = g.tileset(), "t." + fmt, "parse_tileset"
    else:
        (m, entries), rel, fn, fmt = worlds.make(g), "w.world", "parse_world", "json"
    stats = {}
    for st, name in ((Style(), "plain"), (variant(r, knob), knob)):
        if kind == "map":
            d = project_files.documents(copy.deepcopy(m), fmt, rel, st)
        elif kind == "tileset":
            d = {rel: project_files.doc_tileset(m, fmt, st)}
        else:
            d = {rel: worlds.text(m, st)}
            worlds.populate(root, entries)
        if name in ("rewritten", "everything"):
            d = {k: rewrite.xml(t, r, st, g.pick([0.1, 0.5]), True, stats) if t.lstrip().startswith("<")
                 else rewrite.js(t, r, st, g.pick([0.1, 0.5]), stats) for k, t in d.items()}
        for k, t in d.items():
            project_files.write(root, k, t)
        res.append(parse(ctx, fn, os.path.join(root, rel), f"{fmt} {kind} ({name})"))
        docs.append(d)
    for k, v in stats.items():
        ctx.count(k, v)
    diffs = project.diff(res[0], res[1])
    if diffs:
        ctx.fail(f"{fmt} {kind}, plain (expected) and rewritten by '{knob}' (got), differ:\n" + project.show(diffs))
    ctx.count("rewritten: " + knob)
    ctx.count(f"pairs of {kind}s")
    ctx.distinct(docs)
    ctx.sample(docs[1][rel])


def fix_encodings(g, layers, fmt):
    """The storage of tile data is another property's matter."""
    for l in layers:
        if l["kind"] == "TileLayer":
            l["_enc"] = g.pick(["xml" if fmt == "tmx" else "array", "csv", "base64", "base64-zlib"])
        fix_encodings(g, l.get("layers", ()), fmt)
