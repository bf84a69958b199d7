"""Rewriting finished documents without changing what they mean."""
import json
import xml.etree.ElementTree as etree

from . import wjson, wtmx
from .wtmx import Node

FUTURE = ["future", "x-editor", "zz9", "data-x", "lockedby", "generator", "uuid", "extension.1"]


def some(r):
    """One unknown name, now and then many."""
    if r.random() < 0.9:
        return [r.choice(FUTURE)]
    return FUTURE + [f"more-{n}" for n in range(r.choice([2, 10, 30]))]


def junk_tree(r):
    kids = []
    for _ in range(r.choice([0, 0, 1, 2])):
        kids.append(Node(r.choice(["layer", "object", "tile", "property", "chunk", "properties", "point", "ellipse",
                                   "image", "tileset", "wangtile", "frame", "text", "futureitem"]),
                         [(r.choice(["id", "name", "gid", "value", "source", "x"]), str(r.randrange(99)))]))
    n = Node(r.choice(FUTURE), [(r.choice(["id", "name", "class", "type", "v"]), r.choice(["", "1", "é & <"]))] if r.random() < 0.6
             else [], kids)
    if not kids and r.random() < 0.3:
        n.text = r.choice(["text", "1,2,3", " ", "<&>"])
    return n


def xml_node(e, r, unknown, shuffle, reorder, stats):
    attrs = list(e.attrib.items())
    if r.random() < unknown:
        for a in some(r):
            attrs.insert(r.randrange(len(attrs) + 1), (a, r.choice(["", "0", "1", "a b", "#fff", "é"])))
            stats["unknown attributes"] = stats.get("unknown attributes", 0) + 1
    if shuffle:
        r.shuffle(attrs)
    kids = [xml_node(c, r, unknown, shuffle, reorder, stats) for c in e]
    text = e.text
    if kids and not (text or "").strip():
        text = None
    if not kids and not (text or "").strip() and e.tag not in ("property", "text"):
        text = None
    if text is None and e.tag not in ("property", "text", "data", "chunk") or kids:
        while r.random() < unknown:
            kids.insert(r.randrange(len(kids) + 1), junk_tree(r))
            stats["unknown elements"] = stats.get("unknown elements", 0) + 1
    return Node(e.tag, attrs, kids, text)


def xml(text, r, st, unknown=0.3, shuffle=True, stats=None):
    root = etree.fromstring(text.strip().encode("utf-8"))
    return wtmx.serialise(xml_node(root, r, unknown, shuffle, False, {} if stats is None else stats), st)


def json_value(v, r, unknown, stats, where=None):
    if isinstance(v, list):
        return [json_value(x, r, unknown, stats, where) for x in v]
    if not isinstance(v, dict):
        return v
    out = {k: x if k == "value" else json_value(x, r, unknown, stats, k) for k, x in v.items()}
    if r.random() < unknown:
        for k in some(r):
            out[k] = r.choice([None, 1, -0.5, "", "text", [], {}, [1, {"layers": [], "type": "tilelayer"}],
                               {"name": "zz", "gid": 3, "tilesets": [{"firstgid": 1}]}, True, [[1, 2], [3]]])
            stats["unknown keys"] = stats.get("unknown keys", 0) + 1
        out = dict(r.sample(list(out.items()), len(out)))
    return out


def js(text, r, st, unknown=0.3, stats=None):
    return wjson.serialise(json_value(json.loads(text), r, unknown, {} if stats is None else stats), st)
