"""C23: documents of older and newer Tiled versions mean the same."""
import copy
import os
import random

from .. import expect, project, project_files
from ..base import explain, guarded
from ..common import api, gen, path, style, templated_map
from ..style import Style

CASES = {"quick": 12800, "thorough": 100000}
RULE = ("A case is one document set (a map of either format with tilesets, collision shapes and templates, or a tileset on its "
        "own) written in the modern spelling and in an older one: classes called 'type', 'class', either at random or both; in JSON also "
        "properties as an object, tiles keyed by id, numeric versions, and any of infinite, nextlayerid, tiledversion and columns "
        "left out; each file of the set in a spelling of its own.  The oracle is the modern result (less what was left out) and the "
        "model.  Distinct: distinct older documents.")
REQUIRED = {"pairs of maps": 1800, "pairs of tilesets": 250, "pairs with templates": 400, "classes renamed": 2500,
            "properties as objects": 300, "tiles keyed by id": 200, "numeric versions": 150,
            "without infinite": 100, "without nextlayerid": 100, "without tiledversion": 100, "without columns": 60}
OMIT = ["infinite", "nextlayerid", "tiledversion", "columns"]


def older(r, g, fmt, legacy, mixed_layout):
    st = style(r) if mixed_layout else Style()
    st.r = random.Random(r.random())
    st.class_name = g.pick(["type", "type", "mixed", "both", "class"])
    st.legacy_props, st.legacy_tiles, st.legacy_version, st.legacy_omit = legacy
    return st


def simple(g, m, keep):
    """Old properties are texts, numbers and booleans only; columns of 1 may be left out."""
    def walk(v):
        if isinstance(v, dict):
            if isinstance(v.get("properties"), list) and not keep:
                v["properties"] = [p if p["type"] in ("string", "int", "float", "bool") else g.prop(p["name"], ["string", "int", "float",
                                                                                                               "bool"])
                                   for p in v["properties"]]
            if "columns" in v and v["name"] != "same" and g.p(0.4):
                v["columns"] = 1
            if "version" in v and g.p(0.5):
                v["version"] = g.pick(["1", "1.1", "1.2", "1.4", "1.5", "1.12", "1.05", "2", "0.9", "0.125", "10", "12.75"])
            for x in v.values():
                walk(x)
        elif isinstance(v, list):
            for x in v:
                walk(x)

    walk(m)


def parse(ctx, fn, p, label):
    o = guarded(getattr(api(), fn), path(p))
    ctx.evaluated()
    if not o.ok:
        ctx.fail(f"{label} did not parse: {explain(o.exc)}")
    return project.any_(o.value)


def case(ctx, r, i):
    g = gen(r, i, 100)
    fmt = g.pick(["tmx", "json", "json"])
    kind = g.pick(["map"] * 6 + ["tileset"])
    templates = kind == "map" and g.p(0.3)
    legacy = (False, False, False, ())
    if fmt == "json" and g.p(0.8):
        legacy = (g.p(0.6) and not templates, g.p(0.6), g.p(0.6), tuple(x for x in OMIT if g.p(0.3)))
    root = os.path.join(ctx.dir, "p")
    if kind == "tileset":
        m, rel, fn = g.tileset(wang=0.5), "t." + fmt, "parse_tileset"
    elif templates:
        m, _, _ = templated_map(g, fmt, rich=True, ts_rich=True)
    else:
        inf = g.p(0.2)
        ts = g.place_tilesets([g.tileset(f"ts{k} {g.text()}") for k in range(g.pick([0, 1, 2]))])
        for k, t in enumerate(ts):
            if g.p(0.4):
                g.external(t, f"{g.rel_dirs()}/{g.stem(f"ts{k}")}.x", g.pick(["tmx", "json"]))
        m = g.map(g.forest(inf, g.pick([0, 1, 2]), 4), ts, infinite=inf)
    simple(g, m, not legacy[0])
    if kind == "map":
        rel, fn = f"{g.rel_dirs()}/{g.stem("map")}.{fmt}", "parse_map"
    res, docs = [], []
    layout = g.p(0.4)
    for old in (False, True):
        st = (lambda: older(r, g, fmt, legacy, layout)) if old else Style()
        if kind == "map":
            d = project_files.documents(copy.deepcopy(m), fmt, rel, st)
        else:
            d = {rel: project_files.doc_tileset(m, fmt, st() if old else st)}
        for k, t in d.items():
            project_files.write(root, k, t)
        res.append(parse(ctx, fn, os.path.join(root, rel), f"{fmt} {kind} ({'older' if old else 'modern'} spelling {legacy})"))
        docs.append(d)
    want = res[0]
    if kind == "map" and fmt == "json":
        want = dict(want)
        if "nextlayerid" in legacy[3]:
            want["next_layer_id"] = None
        if "tiledversion" in legacy[3]:
            want["tiled_version"] = ""
    diffs = project.diff(want, res[1])
    if diffs:
        ctx.fail(f"{fmt} {kind}, modern (expected) and older spelling {legacy} (got), differ:\n" + project.show(diffs))
    if kind == "map":
        full = expect.map_(m, root, fmt, os.path.join(root, rel))
        for k in ("next_layer_id", "tiled_version"):
            full[k] = want[k]
        diffs = project.diff_map(full, res[1])
    else:
        diffs = project.diff(expect.tileset(m, res[1]["firstgid"], None, fmt), res[1])
    # What else may differ, the modern spelling shares
    diffs = [d for d in diffs if set(d[0][-1:]) & {"class", "version", "infinite", "columns"}]
    if diffs:
        ctx.fail(f"{fmt} {kind} in the older spelling {legacy} differs from the model:\n" + project.show(diffs))
    versions = [res[1].get("version")] + [t.get("version") for t in (res[1].get("tilesets") or {}).values()]
    if any(v is not None and not isinstance(v, str) for v in versions):
        ctx.fail(f"a version is not text: {versions}")
    ctx.count(f"pairs of {kind}s")
    ctx.count("pairs with templates", templates)
    text = "".join(docs[1].values())
    ctx.count("classes renamed", docs[0] != docs[1] and "type" in text)
    if fmt == "json":
        ctx.count("properties as objects", legacy[0] and '"properties"' in text)
        ctx.count("tiles keyed by id", legacy[1] and '"tiles"' in text)
        ctx.count("numeric versions", legacy[2] and '"version": "' not in text and '"version"' in text)
        for x in legacy[3]:
            ctx.count("without " + x, x != "columns" or docs[1] != docs[0])
    ctx.distinct(docs[1])
    ctx.sample(docs[1][rel])
