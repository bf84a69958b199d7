"""C24: what is not supported is refused, never guessed."""
import copy
import json
import os
import xml.etree.ElementTree as etree

from .. import expect, project, project_files, rewrite, wtmx
from ..base import explain, guarded
from ..common import api, gen, path, scatter, style, templated_map
from ..wtmx import Node

CASES = {"quick": 10800, "thorough": 120000}
RULE = ("A case plants one unsupported thing in a random map, at a random place and depth among supported ones: tile data in an "
        "unknown compression or encoding or in zstd (no decoder installed), flat or chunked, with payloads that look like raw, zlib, "
        "gzip or zstd data; a JSON layer of unknown type; unknown elements among the layers of a TMX map; a template in the "
        "other format, of any kind and file name.  The monitor decides by the outcome: the prescribed exception, or for "
        "unknown elements the model's result.  Distinct: distinct documents.")
COMPRESSIONS = ["lzma", "bzip2", "br", "lz4", "deflate", "snappy", "xz", "gzip2", "zlib-ng", "ZLIB", "Gzip", "none", "zip", "zst",
                "zstandard", " zlib", "gz", "z", "lzo", "0", "false", "base64", "csv"]
ENCODINGS = ["hex", "base32", "base85", "base16", "raw", "uu", "binary", "json", "bas64", "base62"]
PAYLOADS = [(b"", ""), (b"", "zlib"), (b"", "gzip"), (b"\x28\xb5\x2f\xfd", ""), (b"BZh9", ""), (b"\xfd7zXZ\0", "zlib")]
TYPES = ["futurelayer", "", "tileLayer", "TileLayer", "objectlayer", "layer", "imagelayers", "Group", "object", "group ",
         "voxellayer", "tilelayer2", "objectgroup\n", "0"]
TAGS = ["futurelayer", "tilelayer", "objectlayer", "layers", "Layer", "LAYER", "objects", "object", "imageLayer", "groups", "voxels",
        "wangset", "image", "data", "template", "layer2"]
KINDS = ["compression", "compression", "zstd", "encoding", "layer type", "unknown element", "template", "template"]
REQUIRED = {f"refused: {k} ({f})": 60 for k in ("compression", "zstd", "encoding", "template") for f in ("tmx", "json")}
REQUIRED.update({"refused: layer type (json)": 150, "ignored: unknown element (tmx)": 200, "planted in chunks": 120, "planted in flat data": 250,
                 "planted inside groups": 700, "planted four groups deep": 60})


def into(g, layers, x):
    """Put a layer among the others, at a random depth; returns the depth."""
    if g.p(0.4):
        depth = 0
        while True:
            groups = [l for l in layers if l["kind"] == "LayerGroup"]
            if not groups or g.p(0.3):
                break
            layers, depth = g.pick(groups)["layers"], depth + 1
        layers.insert(g.n(0, len(layers)), x)
        return depth
    depth = g.pick([0, 1, 2, 4, 7])
    for _ in range(depth):
        around = [g.tile_layer("chunks" in x, rich=False, dims=(2, 2)) for _ in range(g.n(0, 1))] + [x]
        g.r.shuffle(around)
        x = g.group(around, rich=g.p(0.2))
    layers.insert(g.n(0, len(layers)), x)
    return depth


def strange_tree(g):
    """Elements that look like layers but are none."""
    inner = [Node("layer", [("id", "901"), ("name", "not a layer"), ("width", "1"), ("height", "1")],
                  [Node("data", [("encoding", "csv")], text="7", raw=True)])] if g.p(0.6) else []
    if g.p(0.4):
        inner.append(Node("object", [("id", "902"), ("x", "1"), ("y", "2")]))
    if g.p(0.3):
        inner.append(Node("tileset", [("firstgid", "1"), ("source", "no such file.tsx")]))
    a = [("id", "900"), ("name", "strange"), ("width", "1"), ("height", "1")] if g.p(0.7) else []
    return Node(g.pick(TAGS), a, inner)


def plant_elements(g, node, stats):
    """Insert strange elements among the layers of the map and of its groups."""
    kids = []
    for k in node.children:
        if k.tag == "group":
            plant_elements(g, k, stats)
        kids.append(k)
    for _ in range(g.pick([0, 1, 1, 2])):
        t = strange_tree(g)
        if any(k.tag == t.tag for k in kids):
            continue
        kids.insert(g.n(0, len(kids)), t)
        stats[0] += 1
    node.children = kids


def case(ctx, r, i):
    g = gen(r, i, 100)
    kind = KINDS[i % len(KINDS)]
    fmt = {"layer type": "json", "unknown element": "tmx"}.get(kind) or g.pick(["tmx", "json"])
    root = ctx.fresh("p")
    rel = f"{g.rel_dirs()}/{g.stem("map")}.{fmt}"
    st = style(r, 0.6, payload=g.pick(PAYLOADS))
    inf = g.p(0.4)
    depth = 0
    if kind == "template":
        m, tps, _ = templated_map(g, fmt, templates=g.pick([1, 1, 2]), instances=g.n(1, 4))
        used = project_files.templates_of(m)
        bad = g.pick(used)
        bad["fmt"] = "json" if fmt == "tmx" else "tmx"
        for o in expect.objects_of(m["layers"]):
            if o.get("template", {}).get("path") == bad["path"]:
                o["template"] = bad
        bad["path"] = bad["path"].rsplit(".", 1)[0] + g.pick([".tx", ".tj", ".json", ".xml", ""])
        if g.p(0.3):
            m["layers"] = [g.group(m["layers"], rich=False)]
        depth = max(depth_of(m["layers"], bad), 0)
    else:
        m = g.map(g.forest(inf, g.pick([0, 1, 2]), 3, rich=False), g.place_tilesets([g.tileset(rich=False)]) if g.p(0.4) else [],
                  infinite=inf, rich=g.p(0.3))
        x = None
        if kind in ("compression", "zstd", "encoding"):
            x = g.tile_layer(inf, rich=g.p(0.3), dims=(g.n(1, 5), g.n(1, 5)))
            if inf and not x["chunks"]:
                x["chunks"] = [g.chunk()]
            x["_enc"] = {"compression": "base64-" + g.pick(COMPRESSIONS), "zstd": "base64-zstd",
                         "encoding": g.pick(ENCODINGS)}[kind]
            ctx.count("planted in chunks" if inf else "planted in flat data")
        elif kind == "layer type":
            x = g.pick([lambda: g.tile_layer(inf, rich=False, dims=(2, 2)), lambda: g.object_layer(rich=False),
                        lambda: g.image_layer(rich=False), lambda: g.group([], rich=False)])()
            x["name"] = "planted here 4711"
        if x is not None:
            depth = into(g, m["layers"], x)
    docs = project_files.documents(copy.deepcopy(m), fmt, rel, st)
    if kind == "layer type":
        d = json.loads(docs[rel])
        retype(d, g.pick(TYPES))
        docs[rel] = json.dumps(d)
    elif kind == "unknown element":
        stats = [0]
        n = rewrite.xml_node(etree.fromstring(docs[rel].strip().encode()), r, 0, False, False, {})
        plant_elements(g, n, stats)
        docs[rel] = wtmx.serialise(n, st)
        depth = 1 if any(l["kind"] == "LayerGroup" for l in m["layers"]) else 0
    for k, t in docs.items():
        project_files.write(root, k, t)
    p = os.path.join(root, rel)
    o = guarded(api().parse_map, path(p))
    ctx.evaluated()
    label = f"{kind} planted in a {fmt} map, {depth} groups deep"
    got = "a result" if o.ok else explain(o.exc)
    if kind == "unknown element":
        if not o.ok:
            ctx.fail(f"{label}: must be ignored, got {got}")
        diffs = project.diff_map(expect.map_(m, root, fmt, p), project.any_(o.value))
        if diffs:
            ctx.fail(f"{label}: must change nothing, but\n" + project.show(diffs))
        ctx.count("ignored: unknown element (tmx)", stats[0] > 0)
    else:
        allowed = {"template": (NotImplementedError,), "layer type": (RuntimeError,)}.get(kind)
        if allowed is None:
            # Every ValueError of a JSON document surfaces as UnknownFormat
            allowed = (ValueError,) if fmt == "tmx" else (ValueError, api().exception.UnknownFormat)
        # NotImplementedError and RecursionError are RuntimeErrors by descent only
        wrong_kind = kind == "layer type" and isinstance(o.exc, (NotImplementedError, RecursionError))
        if o.ok or not isinstance(o.exc, allowed) or wrong_kind:
            ctx.fail(f"{label} must raise {allowed[0].__name__}, got {got}")
        ctx.count(f"refused: {kind} ({fmt})")
    ctx.count("planted inside groups", depth > 0)
    ctx.count("planted four groups deep", depth > 3)
    ctx.distinct(docs)
    ctx.sample(f"{label}: {got}\n{docs[rel]}")


def depth_of(layers, t, d=0):
    best = -1
    for l in layers:
        if l["kind"] == "LayerGroup":
            best = max(best, depth_of(l["layers"], t, d + 1))
        elif l["kind"] == "ObjectLayer" and any(o.get("template") is t for o in l["objects"]):
            best = max(best, d)
    return best


def retype(d, t):
    for l in d.get("layers", ()):
        if l["name"] == "planted here 4711":
            l["type"] = t
        else:
            retype(l, t)
