"""How a document is spelled: everything a writer may vary without changing its meaning."""
import random


class Style:
    """Random spelling decisions.  Style() with no source is the plainest spelling."""

    def __init__(self, r=None, level=1.0, **fixed):
        self.r = r or random.Random(0)
        L = level if r is not None else 0.0
        R = self.r
        self.on = L > 0
        self.shuffle = self.on and R.random() < 0.6 * L
        self.indent = R.choice([None, "", " ", "  ", "\t", "    "]) if self.on else " "
        self.newline = R.choice(["\n", "\n", "\r\n"]) if self.on else "\n"
        self.decl = R.choice([0, 1, 1, 2, 3]) if self.on else 1
        self.doctype = self.on and R.random() < 0.2 * L
        self.comments = R.choice([0, 0, 0.1, 0.4]) * L if self.on else 0
        self.unknown = R.choice([0, 0, 0.1, 0.4]) * L if self.on else 0
        self.defaults = R.choice([0, 0.3, 1]) * L if self.on else 0
        self.quote = R.choice(['"', '"', "'"]) if self.on else '"'
        self.selfclose = R.random() < 0.8 if self.on else True
        self.charref = R.choice([0, 0, 0.1, 1]) * L if self.on else 0
        self.cdata = R.choice([0, 0, 0.5]) * L if self.on else 0
        self.numbers = R.choice([0, 0, 0.5]) * L if self.on else 0
        self.class_name = R.choice(["class", "type", "mixed", "both"]) if self.on else "class"
        self.ascii = R.random() < 0.5 if self.on else False
        self.slash = R.random() < 0.3 * L if self.on else False
        self.trailing = R.choice(["", "\n", " \n\n"]) if self.on else "\n"
        self.leading = R.choice(["", "", "", "\n", " \n\t\n"]) if self.on else ""
        self.multiline = R.choice(["text", "attr", "mixed"]) if self.on else "text"
        self.tight = self.on and R.random() < 0.5
        self.data_ws = R.choice([0, 0, 1, 1, 2]) if self.on else 1
        self.encodings = None  # restrict the tile data encodings
        self.zstd = False
        self.payload = None  # what data in an unknown compression looks like
        self.legacy_props = self.legacy_tiles = self.legacy_version = False
        self.legacy_omit = ()
        self.template_tileset_abs = False
        for k, v in fixed.items():
            assert hasattr(self, k), k
            setattr(self, k, v)

    def p(self, x):
        return x > 0 and self.r.random() < x

    def dflt(self):
        """Spell a default out?"""
        return self.p(self.defaults)

    def pick(self, seq):
        return self.r.choice(seq)

    def is_plain_text(self):
        return self.multiline == "text" or (self.multiline == "mixed" and self.r.random() < 0.5)
