"""The declared type of everything a result is made of, and a walk that checks it.

The table is written from the documentation of the classes; it does not read the
annotations of the tree under test.  An int is a fine float; a bool is no number.
"""
from pathlib import PurePath


class Bad(Exception):
    pass


def name(v):
    return type(v).__name__


def exact(*types):
    def check(v, at, seen):
        if type(v) not in types:
            raise Bad(f"{at} is a {name(v)} ({v!r:.60}), not {' or '.join(t.__name__ for t in types)}")
    return check


INT, BOOL, STR, NUM, NONE = exact(int), exact(bool), exact(str), exact(int, float), exact(type(None))


def PATH(v, at, seen):
    if not isinstance(v, PurePath):
        raise Bad(f"{at} is a {name(v)} ({v!r:.60}), not a Path")


def opt(t):
    def check(v, at, seen):
        if v is not None:
            t(v, at, seen)
    return check


def seq(t):
    def check(v, at, seen):
        if type(v) is not list:
            raise Bad(f"{at} is a {name(v)}, not a list")
        for i, x in enumerate(v):
            t(x, f"{at}[{i}]", seen)
    return check


def table(k, t):
    def check(v, at, seen):
        if type(v) is not dict:
            raise Bad(f"{at} is a {name(v)}, not a dict")
        for key, x in v.items():
            k(key, f"key of {at}", seen)
            t(x, f"{at}[{key!r:.30}]", seen)
    return check


def one(*names, fields=None):
    def check(v, at, seen):
        n = name(v)
        if n not in names or not type(v).__module__.startswith("pytiled_parser"):
            raise Bad(f"{at} is a {type(v).__module__}.{n}, not {' or '.join(names)}")
        seen["class " + n] = seen.get("class " + n, 0) + 1
        spec = fields or SPEC[n]
        if isinstance(v, tuple):
            if type(v)._fields != tuple(spec) or len(v) != len(spec):
                raise Bad(f"{at}: a {n} has the fields {type(v)._fields}")
        else:
            declared = {f for c in type(v).__mro__ for f in getattr(c, "__annotations__", ())}
            extra = set(getattr(v, "__dict__", ())) - set(spec) - declared
            extra = {x for x in extra if not x.startswith('_')}
            if extra:
                raise Bad(f"{at}: undeclared attributes {sorted(extra)} on a {n}")
        for f, t in spec.items():
            if not hasattr(v, f):
                raise Bad(f"{at}: a {n} without {f}")
            x = getattr(v, f)
            t(x, f"{at}.{f}", seen)
            k = f"{n}.{f}: {name(x)}"
            seen[k] = seen.get(k, 0) + 1
    return check


def byte(v, at, seen):
    INT(v, at, seen)
    if not 0 <= v <= 255:
        raise Bad(f"{at} is {v}, not between 0 and 255")


def PROP(v, at, seen):
    if isinstance(v, tuple):
        COLOR(v, at, seen)
    elif not isinstance(v, PurePath):
        exact(int, float, str, bool)(v, at, seen)
    seen["property of type " + name(v)] = seen.get("property of type " + name(v), 0) + 1


COLOR, PAIR, SIZE = one("Color"), one("OrderedPair"), one("Size")
PROPS = table(STR, PROP)
LAYER = one("TileLayer", "ObjectLayer", "ImageLayer", "LayerGroup")
OBJECT = one("Ellipse", "Point", "Polygon", "Polyline", "Rectangle", "Text", "Tile")
LAYERS = dict(name=STR, opacity=NUM, visible=BOOL, repeat_x=BOOL, repeat_y=BOOL, coordinates=PAIR, parallax_factor=PAIR, offset=PAIR,
              id=opt(INT), class_=opt(STR), size=opt(SIZE), properties=opt(PROPS), tint_color=opt(COLOR))
OBJECTS = dict(id=INT, coordinates=PAIR, size=SIZE, rotation=NUM, visible=BOOL, name=STR, class_=STR, properties=PROPS)
GRID = seq(seq(INT))
SPEC = {
    "Color": dict(red=byte, green=byte, blue=byte, alpha=byte),
    "Size": dict(width=NUM, height=NUM),
    "OrderedPair": dict(x=NUM, y=NUM),
    "Chunk": dict(coordinates=PAIR, size=SIZE, data=GRID),
    "TileLayer": dict(LAYERS, chunks=opt(seq(one("Chunk"))), data=opt(GRID)),
    "ObjectLayer": dict(LAYERS, tiled_objects=seq(OBJECT), draw_order=opt(STR)),
    "ImageLayer": dict(LAYERS, image=PATH, transparent_color=opt(COLOR)),
    "LayerGroup": dict(LAYERS, layers=opt(seq(LAYER))),
    "Ellipse": OBJECTS, "Point": OBJECTS, "Rectangle": OBJECTS,
    "Polygon": dict(OBJECTS, points=seq(PAIR)),
    "Polyline": dict(OBJECTS, points=seq(PAIR)),
    "Text": dict(OBJECTS, text=STR, color=COLOR, font_family=STR, font_size=NUM, bold=BOOL, italic=BOOL, kerning=BOOL, strike_out=BOOL,
                 underline=BOOL, horizontal_align=STR, vertical_align=STR, wrap=BOOL),
    "Frame": dict(tile_id=INT, duration=INT),
    "Grid": dict(orientation=STR, width=INT, height=INT),
    "Transformations": dict(hflip=BOOL, vflip=BOOL, rotate=BOOL, prefer_untransformed=BOOL),
    "WangTile": dict(tile_id=INT, wang_id=seq(INT)),
    "WangColor": dict(color=COLOR, name=STR, probability=NUM, tile=INT, class_=opt(STR), properties=opt(PROPS)),
    "WangSet": dict(name=STR, tile=INT, wang_type=STR, wang_tiles=table(INT, one("WangTile")), wang_colors=seq(one("WangColor")),
                    class_=opt(STR), properties=opt(PROPS)),
    "Tileset": dict(name=STR, tile_width=INT, tile_height=INT, tile_count=INT, columns=INT, firstgid=INT, type=STR, tile_render_size=STR,
                    fill_mode=STR, spacing=INT, margin=INT, tiled_version=opt(STR), version=opt(STR), image=opt(PATH),
                    image_width=opt(INT), image_height=opt(INT), transformations=opt(one("Transformations")), class_=opt(STR),
                    background_color=opt(COLOR), tile_offset=opt(PAIR), transparent_color=opt(COLOR), grid=opt(one("Grid")),
                    properties=opt(PROPS), tiles=None, wang_sets=opt(seq(one("WangSet"))), alignment=opt(STR)),
    "TiledMap": dict(map_file=PATH, infinite=BOOL, layers=seq(LAYER), map_size=SIZE, next_layer_id=opt(INT), next_object_id=INT,
                     orientation=STR, render_order=STR, tiled_version=STR, tile_size=SIZE, tilesets=table(INT, one("Tileset")),
                     version=STR, parallax_origin=PAIR, class_=opt(STR), background_color=opt(COLOR), properties=opt(PROPS),
                     hex_side_length=opt(INT), stagger_axis=opt(STR), stagger_index=opt(STR)),
    "WorldMap": dict(map_file=PATH, size=SIZE, coordinates=PAIR),
    "World": dict(maps=seq(one("WorldMap")), only_show_adjacent=BOOL),
}
# Two classes are called Tile: the one of objects and the one of tilesets
SPEC["Tile"] = dict(OBJECTS, gid=INT)
TILE = dict(id=INT, opacity=NUM, x=INT, y=INT, width=INT, height=INT, class_=opt(STR), animation=opt(seq(one("Frame"))),
            objects=opt(one("ObjectLayer")), image=opt(PATH), image_width=opt(INT), image_height=opt(INT), properties=opt(PROPS),
            tileset=opt(one("Tileset")), flipped_horizontally=BOOL, flipped_diagonally=BOOL, flipped_vertically=BOOL)
SPEC["Tileset"]["tiles"] = opt(table(INT, one("Tile", fields=TILE)))
ROOTS = {"parse_map": one("TiledMap"), "parse_tileset": one("Tileset"), "parse_world": one("World")}


def wrong(fn, value, seen):
    """What is wrong with the types of a result, or None."""
    try:
        ROOTS[fn](value, "result", seen)
    except Bad as e:
        return str(e)
    return None
