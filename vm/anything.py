"""One document of any kind, for the monitors that watch results of every kind."""
import random

from . import project_files, worlds
from .common import path, place, style, styles, templated_map
from .style import Style

KINDS = ["map", "map", "map", "templates", "templates", "tileset", "world", "older map", "older tileset"]


def older(r, g, fmt, templates=False):
    """Spellings of older versions, one for each file."""
    legacy = (g.p(0.6) and not templates, g.p(0.6), g.p(0.6), tuple(x for x in ("infinite", "nextlayerid", "tiledversion") if g.p(0.3)))

    def make():
        st = style(r)
        st.r = random.Random(r.random())
        st.class_name = g.pick(["type", "mixed", "both", "class"])
        if fmt == "json":
            st.legacy_props, st.legacy_tiles, st.legacy_version, st.legacy_omit = legacy
        return st

    return make


def plain(v, g):
    """Old JSON properties are texts, numbers and booleans."""
    if isinstance(v, dict):
        if isinstance(v.get("properties"), list):
            v["properties"] = [p if p["type"] in ("string", "int", "float", "bool") else
                               g.prop(p["name"], ["string", "int", "float", "bool"]) for p in v["properties"]]
        for x in v.values():
            plain(x, g)
    elif isinstance(v, list):
        for x in v:
            plain(x, g)


def document(g, r, root, kind=None):
    """Write a document with all it refers to; returns (kind, format, function name, path, texts)."""
    kind = kind or g.pick(KINDS)
    fmt = g.pick(["tmx", "json"])
    old = kind.startswith("older")
    st = older(r, g, fmt) if old else styles(r, 0.5)
    if kind == "world":
        w, entries = worlds.make(g)
        p = worlds.write(root, "worlds/w.world", w, entries, style(r), g)
        with open(p, "rb") as f:
            return kind, "json", "parse_world", path(p), f.read()
    if kind.endswith("tileset"):
        t = g.tileset(wang=0.5)
        if old:
            plain(t, g)
        text = project_files.doc_tileset(t, fmt, st())
        return kind, fmt, "parse_tileset", path(project_files.write(root, "t." + fmt, text)), text
    if kind == "templates":
        m, _, _ = templated_map(g, fmt, rich=True, ts_rich=True)
        rel = f"{g.rel_dirs()}/{g.stem("map")}.{fmt}"
    else:
        inf = g.p(0.3)
        ts = g.place_tilesets([g.tileset(f"ts{k} {g.text()}", wang=0.2) for k in range(g.pick([0, 1, 1, 2]))])
        m = g.map(g.forest(inf, g.pick([0, 1, 2, 4]), 4, rich=g.p(0.8)), ts, infinite=inf, rich=g.p(0.8))
        rel = place(g, m, fmt)
        if old:
            plain(m, g)
    p, docs = project_files.materialise(root, m, fmt, rel, st)
    return kind, fmt, "parse_map", path(p), docs
