"""Generators of well-formed files of real formats, written from the formats'
definitions (and with the writers of the Python library where there is one).

Each generator is called with a random.Random and returns a G: the bytes, the
parser which must recognize them, the size that the format defines, and the
facts which were encoded: fields of the tree, items of the metadata, contents
of the embedded files."""
import struct

GENERATORS = {}     # name -> (group, function)


def gen(group, name=None):
    def deco(fn):
        GENERATORS[name or fn.__name__] = (group, fn)
        return fn
    return deco


class G:
    def __init__(self, name, parser, data=b"", size=None):
        self.name = name
        self.parser = parser        # identifier of the parser
        self.data = data
        self.size = size            # size defined by the format (bytes), or None
        self.facts = []             # (kind, path, expected)
        self.meta = []              # (group or None, key, expected list)
        self.parts = []             # (path of the field, bytes of the embedded file)
        self.variant = []           # features used (for the evidence)
        self.searchable = True
        self.checks = []            # functions parser -> [(key, message)]

    # facts of the tree
    def f(self, path, value):
        self.facts.append(("value", path, value))

    def fs(self, prefix, **kw):
        for k, v in kw.items():
            self.facts.append(("value", prefix + k, v))

    def disp(self, path, text):
        self.facts.append(("display", path, text))

    def desc(self, path, text):
        self.facts.append(("description", path, text))

    def at(self, path, offset, size=None):
        """field at a byte offset of the file, size in bytes"""
        self.facts.append(("address", path, offset * 8))
        if size is not None:
            self.facts.append(("size", path, int(size * 8)))

    def absent(self, path):
        self.facts.append(("absent", path, None))

    def count(self, path, n):
        """number of fields of the array 'path' (without the index)"""
        self.facts.append(("count", path, n))

    # metadata: the values of the item are exactly these
    def m(self, key, *values, group=None):
        self.meta.append((group, key, list(values)))

    def part(self, path, data):
        self.parts.append((path, data))

    def use(self, *features):
        self.variant += features


ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def word(rng, lo=1, hi=12, chars=ALPHA):
    return "".join(rng.choice(chars) for _ in range(rng.randint(lo, hi)))


def phrase(rng, lo=1, hi=6, chars=ALPHA):
    """text without space at its ends"""
    return " ".join(word(rng, 1, 9, chars) for _ in range(rng.randint(lo, hi)))


class Texts:
    """texts none of which is a prefix of another"""

    def __init__(self, rng, chars=ALPHA):
        self.rng = rng
        self.chars = chars
        self.n = 0

    def __call__(self, lo=1, hi=6):
        self.n += 1
        return "%s%c%s" % (word(self.rng, 1, 1, "XYZ"), 96 + self.n % 26 + 1 if self.n < 26 else 65 + self.n % 26,
                           self.punctuated(phrase(self.rng, lo, hi, self.chars)))

    def punctuated(self, text):
        if self.chars is ALPHA and self.rng.random() < .15:
            pos = self.rng.randrange(1, len(text) + 1)
            text = text[:pos] + self.rng.choice("=:;,/&'\"#%()[]-+*?<>@!.") + text[pos:]
        return text


def rbytes(rng, n):
    return rng.randbytes(n)


def pick_dim(rng):
    """a size in pixels"""
    r = rng.random()
    if r < .3:
        return rng.randint(1, 9)
    if r < .8:
        return rng.randint(1, 300)
    return rng.choice([255, 256, 257, 1000, 4096, 12345, 19999, 20000])


def pack(fmt, *a):
    return struct.pack(fmt, *a)


def names(*groups):
    load()
    return sorted(n for n, (g, _) in GENERATORS.items() if not groups or g in groups)


def make(name, rng):
    load()
    return GENERATORS[name][1](rng)


def load():
    import importlib
    import os
    if load.done:
        return
    load.done = True
    for mod in ("image", "archive", "archive2", "media", "modules", "misc", "misc2", "windows", "ole2", "disk", "font", "ext2"):
        if os.path.exists(os.path.join(os.path.dirname(__file__), mod + ".py")):
            importlib.import_module("vlib.gen." + mod)


load.done = False
