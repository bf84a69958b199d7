"""Materialising a model as files below a scratch root."""
import os
import posixpath

from . import wjson, wtmx
from .style import Style


def write(root, rel, data):
    p = os.path.join(root, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if isinstance(data, str):
        data = data.encode("utf-8")
    with open(p, "wb") as f:
        f.write(data)
    return p


def doc_map(m, fmt, st, dir_):
    if fmt == "tmx":
        return wtmx.serialise(wtmx.map_(m, st, dir_), st)
    return wjson.serialise(wjson.map_(m, st, dir_), st)


def doc_tileset(t, fmt, st):
    if fmt == "tmx":
        return wtmx.serialise(wtmx.tileset(t, st), st)
    return wjson.serialise(wjson.tileset(t, st), st)


def doc_template(t, fmt, st):
    if fmt == "tmx":
        return wtmx.serialise(wtmx.template(t, st), st)
    return wjson.serialise(wjson.template(t, st), st)


def templates_of(m):
    from .expect import objects_of

    seen = {}
    for o in objects_of(m["layers"]):
        t = o.get("template")
        if t is not None:
            seen[t["path"]] = t
    return list(seen.values())


def externals_of(m):
    seen = {}
    for t in m["tilesets"]:
        if "ext" in t:
            seen[t["ext"]["path"]] = t
    for t in templates_of(m):
        ts = t.get("tileset")
        if ts is not None and "ext" in ts:
            seen.setdefault(ts["ext"]["path"], ts)
    return list(seen.values())


def documents(m, fmt, path, style):
    """{relative path: text} of a map and everything it refers to.

    style: a Style, or a function giving one for each document."""
    get = style if callable(style) else (lambda: style)
    docs = {path: doc_map(m, fmt, get(), posixpath.dirname(path))}
    for t in externals_of(m):
        docs[t["ext"]["path"]] = doc_tileset(t, t["ext"]["fmt"], get())
    for t in templates_of(m):
        docs[t["path"]] = doc_template(t, t.get("fmt", fmt), get())
    return docs


def materialise(root, m, fmt, path, style=None):
    docs = documents(m, fmt, path, style or Style())
    for rel, text in docs.items():
        write(root, rel, text)
    return os.path.join(root, path), docs
