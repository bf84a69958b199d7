"""Random documents, as a neutral model that knows nothing of TMX or JSON.

A model is plain dicts and lists.  A key that is absent is an attribute that the
document does not store; the writers (wtmx, wjson) store exactly the keys present (plus,
as a matter of style, defaults spelled out), and expect.py says what a parse must give.
"""
import copy
import posixpath

WORDS = ["Ground", "walls", "Tile Layer 1", "spawn", "door", "a", "x", "Enemy", "collide",
         "water_2", "north-east", "LOOT", "tree.big", "hero", "0", "1", "-1", "1.5", "null",
         "None", "true", "false", "NaN", "type", "class", "name", "id", "gid", "value",
         "properties", "data", "tileset", "template", "layer", "objects", "image", "source",
         "__dict__", "{}", "[]", "%s", "{0}", "\\n", "\\u0041", "#ff00ff", "#12345678", "a/b",
         "..", ".", "C:\\x", "&amp;", "&#65;", "]]>", "<!--", "-->", "<a b='c'/>", "\"q\"",
         "it's", "a&b<c>d", "100%", "a,b,c", "1,2", "key=value", "tab\there"]
UNI = ["é", "ß", "Ωμέγα", "日本語", "Ω", "имя", "عربى", "עברית", "ạ̈", "e\u0301", "𝄞", "😀🗡️",
       "\U0001f468\u200d\U0001f469\u200d\U0001f467", "\u00a0", "\u2028", "\u2029", "\u0085",
       "\u3000", "\ufeff", "\u200b", "\U0010fffd", "ｆｕｌｌ", "İı", "ﬁ", "Å", "\u00ad", "\ue000",
       "\x7f", "\ufffd"]
ORIENT = ["orthogonal", "isometric", "staggered", "hexagonal"]
ORDERS = ["right-down", "right-up", "left-down", "left-up"]


class Gen:
    """A random source with the distributions of this domain."""

    def __init__(self, r, plenty=False):
        self.r = r
        self.plenty = plenty

    def p(self, x):
        return self.r.random() < x

    def many(self, usual, most=400, q=0.3):
        """How many there are of something; in a document of plenty one thing is there in large numbers."""
        if self.plenty and self.p(q):
            self.plenty = False
            return self.n(most // 10, most)
        return usual

    def pick(self, seq):
        return seq[self.r.randrange(len(seq))]

    def n(self, lo, hi):
        return self.r.randint(lo, hi)

    def again(self, items, q=0.15):
        """Sometimes repeat items: in a row, or the first one at the end."""
        while items and self.p(q):
            k = self.n(0, len(items) - 1)
            items.insert(self.pick([k, k, len(items)]), copy.deepcopy(self.pick([items[k], items[k], items[0]])))
        return items

    # ------------------------------------------------------------- scalars
    def text(self, multi=0.0, empty=0.06):
        r = self.r.random()
        if self.plenty and self.p(0.02):
            return self.long_text()
        if r < empty:
            return ""
        if self.p(multi):
            return self.pick(["\n", "\n\n", "a\nb", " lead\n  in ", "x\n", "\ny", "l1\nl2\nl3",
                              "tab\tt\nn", "cr\rlf\r\nx", " \n "]) + self.text(0, 0.3)
        if r < 0.5:
            return self.pick(WORDS)
        if r < 0.75:
            return self.pick(UNI) + self.pick(["", "x", self.pick(UNI)])
        if r < 0.85:
            return self.pick(WORDS) + " " + self.pick(WORDS) + self.pick(["", " ", "."])
        if r < 0.9:
            return " " + self.pick(WORDS) + "  "
        if r < 0.902:
            return "".join(self.pick("abcXYZ 012é日😀<&\"'") for _ in range(self.pick([4090, 8191, 20000])))
        if r < 0.93:
            return "".join(self.pick("abcXYZ 012é日😀<&\"'") for _ in range(self.n(40, 400)))
        return "".join(chr(self.n(0x20, 0x7e)) for _ in range(self.n(1, 12)))

    def long_text(self):
        self.plenty = False
        return "".join(self.pick("abcXYZ 012é日😀<&\"'") for _ in range(500)) * self.n(1, 400)

    def ident(self):
        """A name that is never empty."""
        return self.text(0, 0) or "n"

    def num(self):
        r = self.r
        k = r.randrange(12)
        if k < 2:
            return 0
        if k < 4:
            return r.randint(-20, 300)
        if k < 6:
            return r.randint(-40000, 40000) / self.pick([2, 4, 8, 10, 3, 7])
        if k == 6:
            return r.uniform(-1, 1)
        if k == 7:
            return self.pick([1e-7, -1e-7, 5e-324, 1e-5, 0.1, 0.30000000000000004, -0.5])
        if k == 8:
            return self.pick([1e15, 123456789.125, -2147483648, 2147483648, 1e22, 1.7e308,
                              9007199254740992, 4294967295])
        if k == 9:
            return r.uniform(0, 4096)
        return r.randint(0, 64) * 16

    def pos(self):
        return abs(self.num())

    def tail(self, usual, q=0.03):
        """Now and then a value far off the usual ones."""
        return self.pick([0, 1000, 4096, 65535, 65536, 99999, 1000000, 2147483647]) if self.p(q) else usual

    def far(self, usual, q=0.05):
        """The same for values of either sign."""
        return self.tail(usual, 1) * self.pick([1, -1]) if self.p(q) else usual

    def int_(self):
        return self.far(self.pick([0, 0, 1, -1, 2, 7, 32, 64, -5, 255, 256, 65536, 2147483647,
                          self.n(-100, 100), self.n(0, 10000)]))

    def nat(self):
        return abs(self.int_())

    def size(self):
        return self.tail(self.pick([1, 8, 16, 16, 32, 32, 64, 70, self.n(1, 500)]), 0.02)

    def boolean(self):
        return self.p(0.5)

    def color(self):
        r = self.r
        a = 255 if self.p(0.35) else r.choice([0, 1, 127, 128, 254, r.randrange(256)])
        c = [r.choice([0, 255, 1, 9, 10, 16, r.randrange(256), r.randrange(256)])
             for _ in range(3)]
        return tuple(c) + (a,)

    def relpath(self, ext=".png"):
        r = self.r
        comp = ["img", "tiles", "a b", "Ünï", "日本", "x.y", "deep", "art#1", "p%20q", "+", "~t", "back\\slash", ".dot",
                "e\u0301te\u0301", "ﬁx"]
        parts = [".."] * self.pick([0, 0, 0, 1, 1, 2])
        if self.p(0.1):
            parts[:0] = self.pick([["."], ["."], [".", "."]])
        parts += [self.pick(comp) for _ in range(self.pick([0, 0, 1, 1, 2, 3]))]
        parts.append(self.pick(["tile", "sheet_01", "ö", "ground.v2", "😀", "with space"]) + ext)
        if self.p(0.03):
            parts[-1] = self.pick([" lead", "~", "$HOME", "%41", "c:\\x", "file:", "a\\..\\b", "*", "a;b", "trail "]) + parts[-1] + self.pick(["", " "])
        s = "/".join(parts)
        if self.p(0.05):
            s = "/" + s.lstrip("./")
        return s

    def gid(self, full=True):
        r = self.r
        k = r.randrange(8)
        if k < 2:
            return 0
        if k < 5 or not full:
            return r.randint(1, 300)
        if k == 5:
            return r.randrange(1 << 29) | (r.randrange(16) << 28)
        if k == 6:
            return r.randint(1, 500) | (r.randrange(1, 16) << 28)
        return self.pick([0xFFFFFFFF, 0x80000000, 0x7FFFFFFF, 0xE0000001, 0xFFFFFF, 0x10000,
                          0xFFFF, 0x100, 0xFF, 0x80000001, 0x40000000, 0x20000000, 0x0FFFFFFF])

    # ------------------------------------------------------------- properties
    def prop(self, name=None, kinds=None):
        t = self.pick(kinds or ["string", "string", "string", "int", "int", "float", "float",
                                "bool", "bool", "color", "file", "object"])
        if t == "string":
            v = self.text(multi=0.15, empty=0.12)
        elif t == "int":
            v = self.pick([2147483648, -2147483649, 4294967296, 9007199254740991]) if self.p(0.03) else self.int_()
        elif t == "float":
            v = self.num()
        elif t == "bool":
            v = self.boolean()
        elif t == "color":
            v = self.color()
        elif t == "file":
            v = "" if self.p(0.05) else self.relpath(self.pick([".png", ".txt", "", ".tmx"]))
        else:
            v = self.tail(self.pick([0, 1, self.n(1, 999)]))
        return {"name": self.text() if name is None else name, "type": t, "value": v}

    def props(self, many=False):
        out, used = [], set()
        for _ in range(self.many(self.n(1, 12) if many else 100 if self.p(0.003) else self.pick([0, 1, 1, 2, 3]), 400, 0.08)):
            p = self.prop()
            if p["name"] in used:
                continue
            used.add(p["name"])
            out.append(p)
        return out

    def opt(self, d, key, value, p=0.5):
        if self.p(p):
            d[key] = value() if callable(value) else value

    # ------------------------------------------------------------- layers
    def dims(self, big=False):
        k = self.r.randrange(10)
        if k == 0:
            return (1, 1)
        if k == 1:
            return (self.n(2, 40), 1)
        if k == 2:
            return (1, self.n(2, 40))
        if big and k == 3:
            return self.pick([(257, 3), (3, 300), (128, 17), (64, 65), (33, 70)])
        return (self.n(1, 12), self.n(1, 12))

    def cells(self, w, h):
        k = self.r.randrange(7)
        if k == 0:
            g = self.gid()
            return [[g] * w for _ in range(h)]
        if k == 6:
            # Empty rows and columns, at the edges too
            a, b, c, d = (self.n(0, 2) for _ in range(4))
            return [[self.gid() if a <= x < w - b and c <= y < h - d else 0 for x in range(w)] for y in range(h)]
        if k == 1:
            return [[(y * w + x + 1) for x in range(w)] for y in range(h)]
        if w * h > 2000:
            rb = self.r.randbytes(w * h * 4)
            v = memoryview(rb).cast("I").tolist()
            return [v[i * w:(i + 1) * w] for i in range(h)]
        return [[self.gid() for _ in range(w)] for _ in range(h)]

    def layer_common(self, d, rich=True, props=0.25):
        q = 0.4 if rich else 0.08
        d["name"] = self.text()
        self.opt(d, "id", lambda: self.tail(self.n(1, 9999)), 0.9)
        self.opt(d, "class", lambda: self.text(), q)
        self.opt(d, "opacity", lambda: self.pick([0, 1, 0.5, 0.33, 1e-3, 0.999, self.r.random()]) if not self.p(0.02) else self.num(), q)
        self.opt(d, "visible", self.boolean, q)
        for k in ("offsetx", "offsety", "parallaxx", "parallaxy"):
            self.opt(d, k, self.num, q)
        self.opt(d, "tintcolor", self.color, q)
        for k in ("repeatx", "repeaty"):
            self.opt(d, k, self.boolean, q * 0.7)
        self.opt(d, "properties", self.props, props)
        return d

    def tile_layer(self, infinite, big=False, rich=True, dims=None):
        d = self.layer_common({"kind": "TileLayer"}, rich)
        w, h = dims or self.dims(big)
        d["width"], d["height"] = w, h
        if infinite:
            d["chunks"] = self.again([self.chunk() for _ in range(self.many(self.pick([0, 1, 1, 2, 3, 5])))], 0.08)
            self.opt(d, "start", lambda: (self.far(self.n(-64, 64)), self.far(self.n(-64, 64))), 0.7)
        else:
            d["data"] = self.cells(w, h)
        return d

    def chunk(self):
        w, h = self.pick([(16, 16), (1, 1), (self.n(1, 9), self.n(1, 9)), (self.n(1, 9), self.n(1, 9)),
                          (32, 2), (1, 8), (8, 1)])
        if self.p(0.01):
            w, h = self.pick([(64, 64), (300, 2), (1, 257)])
        return {"x": self.far(self.pick([0, -16, 16, -1, self.n(-500, 500)])),
                "y": self.far(self.pick([0, -16, 16, -1, self.n(-500, 500)])),
                "width": w, "height": h, "grid": self.cells(w, h)}

    def object_layer(self, rich=True, objs=None, gids=True, count=None):
        d = self.layer_common({"kind": "ObjectLayer"}, rich)
        self.opt(d, "draworder", lambda: self.pick(["index", "topdown"]), 0.5)
        d["objects"] = objs if objs is not None else self.again([
            self.object(gids=gids) for _ in range(count if count is not None else
                                                  self.many(self.pick([0, 1, 1, 2, 3, 6])))], 0.08)
        return d

    def image_layer(self, rich=True):
        d = self.layer_common({"kind": "ImageLayer"}, rich)
        d["image"] = self.relpath()
        self.opt(d, "transparentcolor", lambda: self.color()[:3] + (255,), 0.4)
        return d

    def group(self, layers, rich=True):
        d = self.layer_common({"kind": "LayerGroup"}, rich)
        d["layers"] = layers
        return d

    def forest(self, infinite=False, depth=3, width=4, kinds=None, rich=True, objs=True,
               small=True):
        kinds = kinds or ["tile", "object", "image", "group", "group"]
        out = []
        for _ in range(self.many(self.n(0 if depth < 3 else 1, width) if self.p(0.97) or depth > 2 else self.n(8, 14),
                                 300 if depth < 1 else 90 if depth < 2 else 40, 0.2)):
            k = self.pick(kinds)
            if k == "tile":
                out.append(self.tile_layer(infinite, rich=rich,
                                           dims=(self.n(1, 4), self.n(1, 4)) if small else None))
            elif k == "object":
                out.append(self.object_layer(rich, count=self.n(0, 2) if objs else 0))
            elif k == "image":
                out.append(self.image_layer(rich))
            elif depth > 0:
                out.append(self.group(self.forest(infinite, depth - 1, width, kinds, rich, objs,
                                                  small), rich))
        return out

    # ------------------------------------------------------------- objects
    KINDS = ["Rectangle", "Ellipse", "Point", "Polygon", "Polyline", "Text", "Tile"]

    def shape(self, d, k):
        """Fill in what belongs to the kind of an object."""
        d["kind"] = k
        if k in ("Polygon", "Polyline"):
            n = self.many(self.pick([1, 2, 3, 3, 4, 5, 9, 30]), 2000, 0.2)
            d["points"] = [(0, 0) if i == 0 and self.p(0.7) else (self.num(), self.num())
                           for i in range(n)]
            self.again(d["points"])
        elif k == "Text":
            d["text"] = self.textspec()
        elif k == "Tile":
            d["gid"] = self.gid() or 1
        return d

    def textspec(self):
        t = {"text": self.long_text() if self.plenty and self.p(0.1) else self.text(multi=0.3, empty=0.1)}
        self.opt(t, "color", self.color)
        self.opt(t, "fontfamily", self.ident)
        self.opt(t, "pixelsize", lambda: self.tail(self.pick([1, 8, 16, 19, 72, 0])))
        for k in ("bold", "italic", "kerning", "strikeout", "underline", "wrap"):
            self.opt(t, k, self.boolean)
        self.opt(t, "halign", lambda: self.pick(["left", "center", "right", "justify"]))
        self.opt(t, "valign", lambda: self.pick(["top", "center", "bottom"]))
        return t

    def object(self, kinds=None, gids=True, props=0.35):
        d = {"id": self.tail(self.n(1, 99999)), "x": self.num(), "y": self.num()}
        k = self.pick(kinds or self.KINDS)
        if k == "Tile" and not gids:
            k = "Rectangle"
        self.opt(d, "name", self.text)
        self.opt(d, "class", self.text)
        self.opt(d, "width", self.pos, 0.6)
        self.opt(d, "height", self.pos, 0.6)
        self.opt(d, "rotation", self.num, 0.4)
        self.opt(d, "visible", self.boolean, 0.4)
        self.opt(d, "properties", self.props, props)
        return self.shape(d, k)

    # ------------------------------------------------------------- tilesets
    def frames(self):
        return self.again([(self.tail(self.n(0, 300)), self.tail(self.pick([0, 1, 16, 100, 1000, self.n(1, 60000)])))
                           for _ in range(self.many(self.pick([1, 2, 3, 4, 12]) if not self.p(0.01) else 150, 500))], 0.3)

    def image_size(self, image):
        """Usually both, sometimes one or none."""
        k = self.r.random()
        if k < 0.9:
            image["width"] = self.size()
        if k < 0.82 or k > 0.94:
            image["height"] = self.size()

    def tile(self, id_, collection, props=0.3):
        t = {"id": id_}
        self.opt(t, "class", self.text, 0.35)
        if collection or self.p(0.08):
            t["image"] = {"source": self.relpath()}
            self.image_size(t["image"])
        for k in ("x", "y"):
            self.opt(t, k, lambda: self.tail(self.pick([0, 1, 16, self.n(0, 400)])), 0.25)
        for k in ("width", "height"):
            self.opt(t, k, lambda: self.tail(self.pick([1, 16, 0, self.n(0, 400)])), 0.25)
        self.opt(t, "animation", self.frames, 0.3)
        if self.p(0.25):
            o = self.object_layer(rich=self.p(0.3), gids=False)
            t["objectgroup"] = o
        self.opt(t, "properties", self.props, props)
        return t

    def wang_set(self, props=0.35):
        colors = []
        for _ in range(self.many(self.pick([0, 1, 2, 3, 5, 15]) if not self.p(0.02) else 254, 254)):
            c = {"name": self.text(), "color": self.color(), "tile": self.tail(self.pick([-1, 0, self.n(0, 99)])),
                 "probability": self.pick([0, 1, 0.5, 0.25, 1e-4, 3, 250.5, 1e6, 1 / 3, 1.23456789e-9, self.pos()])}
            self.opt(c, "class", self.text, 0.3)
            self.opt(c, "properties", self.props, props)
            colors.append(c)
        self.again(colors, 0.1)
        ids = self.r.sample(range(self.pick([200, 200, 200, 70000])), self.many(self.pick([0, 1, 3, 8, 20]), 200))
        tiles = [(i, [self.pick([0, 0, 1, 2, 3, self.n(0, 254)]) for _ in range(8)] if self.p(0.8) else
                  [self.pick([0, 0, 1, 254])] * 8) for i in ids]
        w = {"name": self.text(), "type": self.pick(["corner", "edge", "mixed"]),
             "tile": self.tail(self.pick([-1, 0, self.n(0, 99)])), "colors": colors, "tiles": tiles}
        self.opt(w, "class", self.text, 0.3)
        self.opt(w, "properties", self.props, props)
        return w

    def tileset(self, name=None, rich=True, collection=None, wang=0.3, tiles=None, props=0.3):
        if collection is None:
            collection = self.p(0.3)
        t = {"name": self.text() if name is None else name,
             "tilewidth": self.size(), "tileheight": self.size(),
             "columns": self.pick([0, 1, 4, 8, self.n(1, 40)]),
             "tilecount": self.pick([1, 4, 16, 48, self.n(1, 400)])}
        q = 0.4 if rich else 0.1
        self.opt(t, "spacing", lambda: self.tail(self.pick([0, 1, 2, self.n(0, 9)])), q)
        self.opt(t, "margin", lambda: self.tail(self.pick([0, 1, 2, self.n(0, 9)])), q)
        self.opt(t, "version", lambda: self.pick(["1.10", "1.5", "1.2", "1"]), 0.7)
        self.opt(t, "tiledversion", lambda: self.pick(["1.10.1", "1.9.2", "2019-11-12", "1.0"]), 0.7)
        self.opt(t, "class", self.text, q)
        self.opt(t, "backgroundcolor", self.color, q)
        self.opt(t, "objectalignment", lambda: self.pick(
            ["unspecified", "topleft", "top", "topright", "left", "center", "right", "bottomleft", "bottom",
             "bottomright"]), q)
        self.opt(t, "tilerendersize", lambda: self.pick(["tile", "grid"]), q)
        self.opt(t, "fillmode", lambda: self.pick(["stretch", "preserve-aspect-fit"]), q)
        self.opt(t, "tileoffset", lambda: (self.far(self.n(-40, 40)), self.far(self.pick([0, self.n(-40, 40)]))), q)
        self.opt(t, "grid", lambda: (self.pick(["orthogonal", "isometric"]), self.size(), self.size()), q)
        self.opt(t, "transformations", lambda: [self.boolean() for _ in range(4)], q)
        self.opt(t, "properties", self.props, props if rich else 0.1)
        if not collection and self.p(0.9):
            t["image"] = {"source": self.relpath()}
            self.image_size(t["image"])
            self.opt(t["image"], "trans", lambda: self.color()[:3] + (255,), q)
        if tiles is None:
            n = self.many(self.pick([0, 0, 1, 2, 4, 7]) if not collection else self.pick([1, 2, 5]))
            tiles = self.r.sample(range(self.pick([8, 64, 1000, 1000, 70000, 70000, 3000000] if n < 8 else [n, 1000, 70000])), n)
            if self.p(0.5):
                tiles.sort()
        if tiles:
            t["tiles"] = [self.tile(i, collection) for i in tiles]
            if collection:
                t["tilecount"] = len(tiles)
        elif self.p(0.04):
            t["tilecount"] = 0
        if self.p(wang):
            t["wangsets"] = self.again([self.wang_set() for _ in range(self.many(self.pick([0, 1, 1, 2]), 60))], 0.08)
        return t

    def place_tilesets(self, tilesets, shuffle=True):
        """Give first gids so that the ranges are disjoint."""
        first = 1
        for t in tilesets:
            if self.p(0.2):
                first += self.n(1, 500)
            t["firstgid"] = first
            first += max(1, span(t))
        if shuffle and self.p(0.3):
            self.r.shuffle(tilesets)
        return tilesets

    # ------------------------------------------------------------- maps
    def map(self, layers=None, tilesets=None, infinite=None, rich=True, props=0.4):
        if infinite is None:
            infinite = self.p(0.3)
        w, h = self.dims()
        m = {"infinite": infinite, "width": w, "height": h, "tilewidth": self.size(),
             "tileheight": self.size(), "orientation": self.pick(ORIENT),
             "renderorder": self.pick(ORDERS), "nextlayerid": self.tail(self.n(1, 9999)),
             "nextobjectid": self.tail(self.n(1, 9999)),
             "version": self.pick(["1.10", "1.9", "1.5", "1.2", "1.4"]),
             "tiledversion": self.pick(["1.10.1", "1.9.2", "1.3.4", "2021-03-01", "1.10.2"])}
        q = 0.45 if rich else 0.1
        self.opt(m, "class", self.text, q)
        self.opt(m, "backgroundcolor", self.color, q)
        self.opt(m, "hexsidelength", lambda: self.tail(self.pick([0, 6, 18, self.n(0, 99)])), q)
        self.opt(m, "staggeraxis", lambda: self.pick(["x", "y"]), q)
        self.opt(m, "staggerindex", lambda: self.pick(["odd", "even"]), q)
        self.opt(m, "parallaxoriginx", self.num, q)
        self.opt(m, "parallaxoriginy", self.num, q)
        self.opt(m, "properties", self.props, props if rich else 0.1)
        m["tilesets"] = tilesets if tilesets is not None else []
        m["layers"] = layers if layers is not None else self.forest(infinite)
        return m

    # ------------------------------------------------------------- templates
    def template(self, path, fmt, kind=None, tileset=None):
        """A template; a tile template needs the (external) tileset its gid refers to."""
        o = self.object([kind or self.pick(self.KINDS[:-1])], props=0.5)
        if kind == "Tile":
            o["gid"] = (self.local_id(tileset) + 1) | (self.n(0, 15) << 28 if self.p(0.4) else 0)
        if self.p(0.7):
            del o["x"], o["y"]
        if self.p(0.2):
            del o["id"]
        return {"path": path, "fmt": fmt, "object": o, "tileset": tileset if kind == "Tile" else None}

    def local_id(self, t):
        """A tile that the tileset really has."""
        ids = [x["id"] for x in t.get("tiles", ())]
        if "image" not in t and ids:
            return self.pick(ids)
        return self.pick([0, t["tilecount"] - 1, self.n(0, t["tilecount"] - 1)])

    def instance(self, t, gids=(), q=0.3):
        """An object placed from a template, overriding a random subset of its values."""
        base = t["object"]
        d = {"id": self.tail(self.n(1, 99999)), "x": self.num(), "y": self.num(), "template": t}
        self.opt(d, "name", self.text, q)
        self.opt(d, "class", self.text, q)
        for k in ("width", "height"):
            self.opt(d, k, self.pos, q)
        self.opt(d, "rotation", self.num, q)
        self.opt(d, "visible", self.boolean, q)
        if self.p(q + 0.1):
            ps, used = [], set()
            for p in base.get("properties", ()):
                if self.p(0.5):
                    ps.append(self.prop(p["name"]))
                    used.add(p["name"])
            for _ in range(self.pick([0, 1, 2])):
                p = self.prop()
                if p["name"] not in used and all(b["name"] != p["name"] for b in base.get("properties", ())):
                    ps.append(p)
                    used.add(p["name"])
            self.r.shuffle(ps)
            d["properties"] = ps
        if base["kind"] in ("Polygon", "Polyline", "Text") and self.p(q):
            self.shape(d, base["kind"])
        if base["kind"] == "Tile" and gids and self.p(0.15):
            d["gid"] = self.pick(gids)
        return d

    def external(self, t, path, fmt):
        t["ext"] = {"path": path, "fmt": fmt}
        return t

    def rel_dirs(self):
        """Directories, below a scratch root, in which the files of a project live."""
        comp = ["maps", "lvl 1", "Ünï", "a.b", "日本", "m", "Maps", "u\u0308"]
        if self.p(0.06):
            comp = ["~", "~root", "$HOME", "back\\slash", "a%20b", "x#1", "q?y", "c:", " edge ", "...", "-r", "*", "[a]", "{m}", "&amp;"]
        return "/".join(self.pick(comp) for _ in range(self.n(1, 3) if not self.p(0.02) else self.n(8, 20)))

    def stem(self, usual):
        """The name, without its ending, of a file whose usual name is given."""
        if self.p(0.9):
            return usual
        return usual.join(self.pick([("", ".v2"), ("", " "), (" ", ""), ("e\u0301", ""), ("ﬁ", ""), ("Ａ", "é"), ("%41", ""),
                                     ("~", ""), (".", ""), ("x;", ",y"), ("#", "?"), ("[", "]"), ("back\\", ""), ("&amp;", ""),
                                     ("long" * 50, ""), ("K", "\u212a"), ("$HOME", ""), ("日本", ""), ("", "."), ("-", "--")]))


def span(t):
    return max(t["tilecount"], max((x["id"] for x in t.get("tiles", ())), default=-1) + 1)


def relref(target, source_dir):
    """How a file in source_dir refers to target (both relative to the scratch root)."""
    return posixpath.relpath(target, source_dir or ".")
