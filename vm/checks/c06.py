"""C06: custom properties keep every name, type and value wherever they occur."""
import os

from .. import expect, project, project_files
from ..base import explain, guarded
from ..common import api, check_own, gen, parse_and_diff, path, place, styles
from ..style import Style
from .c03 import walk

CASES = {"quick": 16800, "thorough": 120000}
RULE = ("A case is one map in one format with property lists (0-12 properties of every supported type; "
        "names empty, unicode, or spelled like attributes; boundary values; multi-line texts; sometimes a "
        "class-typed property among them, which must not disturb the others) on map, layers of every "
        "kind, objects, tilesets, tiles, wang sets and wang colours.  The oracle is each element's own "
        "list of names and typed values.  Cases are distinct if their documents are.")
REQUIRED = {"properties compared": 5000, "elements with properties": 2000, "multi-line texts": 50,
            "class-typed neighbours": 30}


def holders(m):
    yield "map", m
    for l, _ in walk(m["layers"]):
        yield l["kind"], l
        for o in l.get("objects", ()):
            yield "object", o
    for t in m["tilesets"]:
        yield "tileset", t
        for x in t.get("tiles", ()):
            yield "tile", x
            if "objectgroup" in x:
                yield "collision layer", x["objectgroup"]
                for o in x["objectgroup"]["objects"]:
                    yield "collision shape", o
        for w in t.get("wangsets", ()):
            yield "wang set", w
            for c in w["colors"]:
                yield "wang colour", c


def case(ctx, r, i):
    g = gen(r, i)
    fmt = g.pick(["tmx", "json"])
    layers = g.forest(False, g.pick([0, 1, 2]), 3, rich=False)
    ts = [g.tileset(f"ts{k}", rich=False, wang=0.5) for k in range(g.pick([0, 1, 1]))]
    m = g.map(layers, g.place_tilesets(ts), infinite=False, rich=False)
    classes = False
    for kind, h in holders(m):
        h.pop("properties", None)
        if g.p(0.6):
            h["properties"] = g.props(many=g.p(0.25))
            ctx.count("elements with properties")
            ctx.count("elements with properties: " + kind)
            ctx.count("properties compared", len(h["properties"]))
            for p in h["properties"]:
                ctx.count("properties of type " + p["type"])
                ctx.count("multi-line texts", p["type"] == "string" and "\n" in p["value"])
                if g.p(0.1):
                    p["ptype"] = "Custom Enum"
            if g.p(0.08):
                used = {p["name"] for p in h["properties"]}
                name = next(n for n in ("cls", "cls2", "cls3", "a class") if n not in used)
                h["properties"].insert(g.n(0, len(h["properties"])),
                                       {"name": name, "type": "class", "ptype": "Klass", "cls": True,
                                        "value": [{"name": "inner", "type": "string", "value": "v"}]})
                ctx.count("class-typed neighbours")
                classes = True
    rel = place(g, m, fmt, 0.3)
    diffs, docs, _, got = parse_and_diff(ctx, m, fmt, rel, styles(r))
    if classes:  # whatever becomes of the class-typed ones themselves
        diffs = [d for d in diffs if not (d[0][-1] in ("cls", "cls2", "cls3", "a class")
                                          and d[1] is project.MISSING)]
    check_own(ctx, diffs, ("properties",), "custom properties")
    ctx.distinct(docs)
    ctx.sample(docs[rel])


def known(ctx):
    """A colour property that is not set: Tiled stores the empty text as its value."""
    g = gen(ctx.rng("known"))
    for fmt in ("tmx", "json"):
        m = g.map([], [], infinite=False, rich=False)
        m["properties"] = [{"name": "tint", "type": "string", "value": "XX"},
                           {"name": "other", "type": "int", "value": 4}]
        root = ctx.fresh("k" + fmt)
        p, docs = project_files.materialise(root, m, fmt, "m." + fmt, Style())
        text = list(docs.values())[0]
        if fmt == "tmx":
            bad = text.replace('name="tint" value="XX"', 'name="tint" type="color" value=""')
        else:
            bad = text.replace('"type": "string",', '"type": "color",').replace('"XX"', '""')
        assert bad != text
        project_files.write(root, "m." + fmt, bad)
        o = guarded(api().parse_map, path(p))
        if not o.ok:
            yield "unset-colour-property", f"{fmt}: {explain(o.exc)}"
            return
