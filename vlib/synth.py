"""Random field programs: small parsers made of every kind of field.

A program is a nested list of dictionaries, interpreted by createFields().
`generate()` makes programs which fit the data exactly (fit=True: the tree
they must give is predicted from the data alone, see layout()) or programs
with wrong sizes, failing generators and duplicated names."""
from vlib import env, model  # noqa: F401
from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN, MIDDLE_ENDIAN
from hachoir.field import (
    Parser as FieldParser, FieldSet, StaticFieldSet, SeekableFieldSet, GenericVector, UserVector,
    Bit, Bits, RawBits, Bytes, RawBytes, Character, Enum, Link, ParserError, GenericInteger,
    PaddingBits, PaddingBytes, NullBits, NullBytes, String, CString, UnixLine,
    PascalString8, PascalString16, PascalString32, Float32, Float64, Float80,
    Int8, Int16, Int24, Int32, Int64, UInt8, UInt16, UInt24, UInt32, UInt64,
    TimestampUnix32, TimestampUnix64, TimestampMac32, TimestampUUID60, TimestampWin64,
    TimedeltaWin64, TimedeltaMillisWin64, TimeDateMSDOS32, DateTimeMSDOS32)
from hachoir.parser import Parser

ENDIAN = {"big": BIG_ENDIAN, "little": LITTLE_ENDIAN, "middle": MIDDLE_ENDIAN}
UINT = {8: UInt8, 16: UInt16, 24: UInt24, 32: UInt32, 64: UInt64}
SINT = {8: Int8, 16: Int16, 24: Int24, 32: Int32, 64: Int64}
TIME = {"unix32": (TimestampUnix32, 32), "unix64": (TimestampUnix64, 64),
        "mac32": (TimestampMac32, 32), "uuid60": (TimestampUUID60, 60),
        "win64": (TimestampWin64, 64), "dwin64": (TimedeltaWin64, 64),
        "dmwin64": (TimedeltaMillisWin64, 64)}
MSDOS = {"td": TimeDateMSDOS32, "dt": DateTimeMSDOS32}
FLOAT = {32: Float32, 64: Float64, 80: Float80}
PASCAL = {8: PascalString8, 16: PascalString16, 32: PascalString32}
CHARSETS8 = ["ASCII", "ISO-8859-1", "WINDOWS-1252", "ISO-8859-15", "MacRoman", "CP037",
             "WINDOWS-1251", "ISO-8859-5", "WINDOWS-1258", "ISO-8859-16"]
UTF = {"UTF-8": 1, "UTF-16-LE": 2, "UTF-16-BE": 2, "UTF-32LE": 4, "UTF-32BE": 4}
ENUM = {0: "zero", 1: "one", 2: "two", 255: "max"}


class Boom(Exception):
    pass


class TwoByte(StaticFieldSet):
    format = ((UInt8, "x"), (Bits, "y", 4), (Bit, "z"), (NullBits, "w[]", 3))


class Rec(StaticFieldSet):
    format = ((Bytes, "tag", 3), (Int16, "v", "Some value"), (String, "s", 3, {"charset": "ASCII"}))


class Words(UserVector):
    item_class = UInt16
    item_name = "word"


ITEMS = {"u8": (UInt8, 8), "u16": (UInt16, 16), "u32": (UInt32, 32), "i24": (Int24, 24),
         "bit": (Bit, 1), "two": (TwoByte, 16), "rec": (Rec, 64), "char": (Character, 8)}


def build(fs, it, name):
    """Create the field of item `it` in the set `fs`."""
    k = it["k"]
    if k == "bits":
        f = Bits(fs, name, it["n"])
    elif k == "bit":
        f = Bit(fs, name)
    elif k == "rawbits":
        f = RawBits(fs, name, it["n"])
    elif k == "uint":
        f = UINT[it["n"]](fs, name)
    elif k == "sint":
        f = SINT[it["n"]](fs, name, "signed integer")
    elif k == "gint":
        f = GenericInteger(fs, name, it["signed"], it["n"])
    elif k == "char":
        f = Character(fs, name)
    elif k == "bytes":
        f = Bytes(fs, name, it["n"])
    elif k == "raw":
        f = RawBytes(fs, name, it["n"])
    elif k == "padbits":
        f = PaddingBits(fs, name, it["n"], pattern=it["pattern"])
    elif k == "padbytes":
        f = PaddingBytes(fs, name, it["n"], pattern=it["pattern"])
    elif k == "nullbits":
        f = NullBits(fs, name, it["n"])
    elif k == "nullbytes":
        f = NullBytes(fs, name, it["n"])
    elif k == "string":
        f = String(fs, name, it["n"], **it["opt"])
    elif k == "cstring":
        f = CString(fs, name, **it["opt"])
    elif k == "line":
        f = UnixLine(fs, name, **it["opt"])
    elif k == "pascal":
        f = PASCAL[it["w"]](fs, name, **it["opt"])
    elif k == "float":
        f = FLOAT[it["n"]](fs, name)
    elif k == "time":
        f = TIME[it["t"]][0](fs, name)
    elif k == "msdos":
        f = MSDOS[it["t"]](fs, name)
    elif k == "vector":
        f = GenericVector(fs, name, it["n"], ITEMS[it["item"]][0], it["iname"])
    elif k == "words":
        f = Words(fs, name, it["n"])
    elif k == "static":
        f = ITEMS[it["item"]][0](fs, name)
    elif k == "link":
        f = PathLink(fs, name, it["target"])
    elif k == "set":
        f = SynthSet(fs, name, it)
    elif k == "seekset":
        f = SynthSeek(fs, name, it)
    else:
        raise AssertionError(k)
    if it.get("enum"):
        f = Enum(f, ENUM)
    return f


class PathLink(Link):
    def __init__(self, parent, name, target):
        Link.__init__(self, parent, name)
        self.target = target

    def createDisplay(self):
        return self.target


def run(fs, items):
    for it in items:
        k = it["k"]
        if k == "raise":
            raise (ParserError, Boom, KeyError, ZeroDivisionError)[it["n"]]("planned")
        if k == "stop":
            return
        if k == "notfield":
            yield "not a field"
            continue
        if k == "peek":
            try:
                fs[it["path"]].value
            except KeyError:
                pass
            continue
        if k == "peekmissing":
            it["path"] in fs
            continue
        if k == "eof":
            n = 0
            while not fs.eof:
                yield build(fs, it["of"], it["of"]["name"])
                n += 1
                if n >= it["max"]:
                    break
            continue
        if k == "seek":
            f = fs.seekBit(it["to"], **({} if isinstance(fs, SeekableFieldSet) else {"name": it["name"]}))
            if f:
                yield f
            continue
        yield build(fs, it, it["name"])


class SynthSet(FieldSet):
    def __init__(self, parent, name, spec):
        self.spec = spec
        if spec.get("endian"):
            self.endian = ENDIAN[spec["endian"]]
        FieldSet.__init__(self, parent, name, spec.get("desc"), size=spec.get("size"))

    def createFields(self):
        return run(self, self.spec["items"])


class SynthSeek(SeekableFieldSet):
    def __init__(self, parent, name, spec):
        self.spec = spec
        if spec.get("endian"):
            self.endian = ENDIAN[spec["endian"]]
        SeekableFieldSet.__init__(self, parent, name, spec.get("desc"), size=spec.get("size"))

    def createFields(self):
        return run(self, self.spec["items"])


class SynthParser(Parser):
    PARSER_TAGS = {"id": "synth", "description": "Synthetic parser", "min_size": 8}
    endian = BIG_ENDIAN

    def __init__(self, stream, spec, **args):
        self.spec = spec
        self.endian = ENDIAN[spec["endian"]]
        Parser.__init__(self, stream, **args)

    def validate(self):
        return True

    def createFields(self):
        return run(self, self.spec["items"])


class RawParser(FieldParser):
    """Same without autofix handling of HachoirParser."""
    endian = BIG_ENDIAN

    def __init__(self, stream, spec):
        self.spec = spec
        self.endian = ENDIAN[spec["endian"]]
        FieldParser.__init__(self, stream)

    def createFields(self):
        return run(self, self.spec["items"])


# ------------------------------------------------------------ generation

def make_data(rng, n):
    out = bytearray()
    while len(out) < n:
        r = rng.randrange(10)
        k = rng.randint(1, 24)
        if r < 3:
            out += rng.randbytes(k)
        elif r == 3:
            out += bytes(k)
        elif r == 4:
            out += b"\xff" * k
        elif r == 5:
            out += bytes(rng.choice(b"abcXYZ 0123.\"\\\t\n") for _ in range(k)) + b"\0"
        elif r == 6:
            t = "".join(rng.choice("abé€ж中 \t\n\0") for _ in range(k // 2 + 1)) + "\0"
            out += t.encode(rng.choice(["utf-16-le", "utf-16-be", "utf-8", "utf-32-le"]))
        elif r == 7:
            out += bytes([k - 1]) + bytes(rng.choice(b"pqrs ") for _ in range(k - 1))
        elif r == 8:
            out += bytes(rng.choice((0, 1, 2, 4, 127, 128, 254, 255)) for _ in range(k))
        else:
            out += b"line of text\n"[rng.randrange(12):]
    return bytes(out[:n])


def _strip_opts(rng, charset):
    opt = {}
    if charset:
        opt["charset"] = charset
    r = rng.randrange(6)
    if r == 0:
        opt["strip"] = True
    elif r == 1:
        opt["strip"] = rng.choice(["\0", " ", "ab", " \0", "\t "])
    r = rng.randrange(6)
    if r == 0:
        opt["truncate"] = rng.choice(["\0", "a", " ", "2"])
    return opt


def string_size(data, addr, it, endian):
    """Size in bits of a string item at byte address, None when impossible."""
    a = addr // 8
    k = it["k"]
    cs = it["opt"].get("charset")
    unit = UTF.get(cs, 1)
    if k == "string":
        return 8 * it["n"]
    if k == "pascal":
        w = it["w"]
        v = model.bits(data, addr, w, endian)
        if v is None:
            return None
        return w + 8 * v
    ch = 0 if k == "cstring" else 10
    if endian == "middle" and k == "line":
        return None
    e = {"UTF-16-LE": "little", "UTF-32LE": "little",
         "UTF-16-BE": "big", "UTF-32BE": "big"}.get(cs, endian if k == "line" else "big")
    suffix = ch.to_bytes(unit, e)
    # the terminator: first character-aligned one
    pos = a
    while True:
        pos = data.find(suffix, pos)
        if pos < 0:
            return None
        if (pos - a) % unit == 0:
            return 8 * (pos - a + unit)
        pos += 1


class Gen:
    def __init__(self, rng, data, fit, seek=True, links=True, maxdepth=4):
        self.rng = rng
        self.data = data
        self.fit = fit
        self.seek = seek
        self.links = links
        self.maxdepth = maxdepth
        self.count = 0

    def name(self):
        r = self.rng.random()
        self.count += 1
        if r < .5:
            return "f%d" % self.count
        if r < .8:
            return self.rng.choice(("a[]", "b[]", "raw[]", "padding[]"))
        if r < .93:
            return self.rng.choice(("dup", "dup2"))
        if r < .97:
            return self.rng.choice(("a.b", "été", "x y", "raw"))
        return "g%d" % self.count if self.fit else self.rng.choice(("a[0]", "a[1]", "dup[0]"))

    def leaf(self, addr, room, endian):
        """One leaf at absolute bit address addr with `room` bits left."""
        rng = self.rng
        aligned = addr % 8 == 0
        for _ in range(30):
            r = rng.randrange(22)
            it = None
            if r == 0:
                it = {"k": "bits", "n": rng.choice((1, 2, 3, 5, 7, 8, 9, 12, 16, 24, 33, 64, 100, 300))}
            elif r == 1:
                it = {"k": "bit", "n": 1}
            elif r == 2:
                it = {"k": rng.choice(("rawbits", "bits")), "n": rng.randint(1, 40)}
            elif r in (3, 4):
                it = {"k": rng.choice(("uint", "sint")), "n": rng.choice((8, 16, 24, 32, 64))}
            elif r == 5:
                it = {"k": "gint", "n": rng.choice((8, 9, 15, 31, 48, 63, 128, 200)),
                      "signed": rng.random() < .5}
            elif r == 6:
                it = {"k": "char", "n": 8}
            elif r == 7:
                # up to the next byte boundary
                n = -addr % 8 or 8
                it = {"k": rng.choice(("bits", "padbits", "nullbits")), "n": n, "pattern": rng.choice((0, None))}
            elif r == 8:
                n = rng.randint(1, 20)
                it = {"k": rng.choice(("padbits", "nullbits")), "n": n, "pattern": rng.choice((0, None))}
            elif r in (9, 10) and aligned:
                it = {"k": rng.choice(("bytes", "raw")), "n": rng.choice((1, 2, 3, 4, 8, 16, 30))}
            elif r == 11 and aligned:
                it = {"k": rng.choice(("padbytes", "nullbytes")), "n": rng.randint(1, 12),
                      "pattern": rng.choice((None, b"\0", b"ab", b"\xff"))}
            elif r in (12, 13) and aligned:
                cs = rng.choice(CHARSETS8 + list(UTF) + [None, None])
                it = {"k": "string", "n": rng.choice((1, 2, 4, 5, 8, 12, 20)), "opt": _strip_opts(rng, cs)}
            elif r in (14, 15) and aligned:
                cs = rng.choice(CHARSETS8 + list(UTF) + [None, None])
                it = {"k": rng.choice(("cstring", "line")), "opt": _strip_opts(rng, cs)}
                if endian == "middle" and self.fit:
                    continue
            elif r == 16 and aligned:
                cs = rng.choice(CHARSETS8 + list(UTF) + [None, None])
                it = {"k": "pascal", "w": rng.choice((8, 8, 16, 32)), "opt": _strip_opts(rng, cs)}
            elif r == 17:
                n = rng.choice((32, 64, 80))
                if endian == "middle" or (self.fit and not aligned):
                    continue
                it = {"k": "float", "n": n}
            elif r == 18:
                t = rng.choice(sorted(TIME))
                it = {"k": "time", "t": t, "n": TIME[t][1]}
            elif r == 19:
                it = {"k": "msdos", "t": rng.choice(("td", "dt")), "n": 32}
            elif r == 20:
                item = rng.choice(sorted(ITEMS))
                if item == "rec" and self.fit and not aligned:
                    continue
                it = {"k": "vector", "n": rng.randint(1, 6), "item": item,
                      "iname": rng.choice(("item", "x", "entry"))}
            elif r == 21:
                if rng.random() < .5:
                    it = {"k": "words", "n": rng.randint(1, 5)}
                else:
                    item = rng.choice(("two", "rec"))
                    if item == "rec" and self.fit and not aligned:
                        continue
                    it = {"k": "static", "item": item}
            if it is None:
                continue
            size = self.size(addr, it, endian)
            if self.fit:
                if size is None or size > room or size <= 0:
                    continue
                if endian == "middle" and self.spill(addr, size):
                    continue
            elif size is None:
                size = 8
            if it["k"] in ("bits", "uint", "sint", "gint", "rawbits", "char") and rng.random() < .15:
                it["enum"] = True
            it["name"] = self.name()
            return it, size
        return None, 0

    def spill(self, addr, size):
        """middle endian: are the 16-bit words of the bits all there?"""
        return -(-(addr + size) // 16) * 16 > 8 * len(self.data)

    def size(self, addr, it, endian):
        k = it["k"]
        if k in ("bytes", "raw", "padbytes", "nullbytes"):
            return 8 * it["n"]
        if k in ("string", "cstring", "line", "pascal"):
            return string_size(self.data, addr, it, endian)
        if k == "vector":
            return it["n"] * ITEMS[it["item"]][1]
        if k == "words":
            return 16 * it["n"]
        if k == "static":
            return ITEMS[it["item"]][1]
        return it["n"]

    def items(self, addr, room, endian, depth, nmax):
        """Items of a set starting at absolute address addr."""
        rng = self.rng
        out = []
        start = addr
        end = addr + room
        names = []
        for _ in range(rng.randint(1, nmax)):
            r = rng.random()
            if not self.fit and addr > end + 64:
                break
            if r < .25 and depth < self.maxdepth:
                it, size = self.subset(addr, end - addr, endian, depth)
                if it is None:
                    continue
            elif r < .31 and names:
                out.append({"k": rng.choice(("peek", "peek", "peekmissing")), "path": rng.choice(
                    names + ["nosuch"])})
                continue
            elif r < .34 and self.links and names:
                it = {"k": "link", "name": self.name(), "target": rng.choice(names)}
                size = 0
            elif not self.fit and r < .37:
                out.append({"k": "raise", "n": rng.randrange(4)})
                continue
            elif not self.fit and r < .375:
                out.append({"k": "notfield"})
                continue
            elif r < .41:
                to = (addr - start) + rng.choice((1, 8, 16, 5, 24))
                if not self.fit and rng.random() < .2:
                    to -= rng.randint(1, 60)
                elif start + to > end:
                    continue
                out.append({"k": "seek", "to": to, "name": rng.choice(("padding[]", "skip[]"))})
                addr = start + to
                continue
            else:
                it, size = self.leaf(addr, end - addr, endian)
                if it is None:
                    continue
            out.append(it)
            addr += size
            if not it["name"].endswith("[]") and it["name"] not in ("dup", "dup2") and it["k"] != "link":
                names.append(it["name"])
        return out, addr

    def subset(self, addr, room, endian, depth):
        rng = self.rng
        if room < 8 and self.fit:
            return None, 0
        own = rng.choice((None, None, "big", "little", "middle"))
        e = own or endian
        seek = self.seek and rng.random() < .2
        it = {"k": "seekset" if seek else "set", "name": self.name(), "endian": own}
        sub = room if room > 8 and rng.random() < .5 else min(room, rng.randint(8, 400))
        if sub <= 0:
            sub = 8
        if seek:
            return self.seekset(it, addr, sub, e, depth)
        items, end = self.items(addr, sub, e, depth + 1, 8)
        used = end - addr
        it["items"] = items
        r = rng.random()
        if self.fit:
            if used <= 0:
                return None, 0
            if r < .4:
                it["size"] = used
            elif r < .5 and used < sub:
                # smaller content than the declared size: padded by autofix
                it["size"] = used + rng.randint(1, sub - used)
                it["tail"] = True
            return it, it.get("size", used)
        if r < .3:
            it["size"] = max(used, 1)
        elif r < .45:
            it["size"] = max(1, used - rng.randint(1, 30))
        elif r < .6:
            it["size"] = used + rng.randint(1, 100)
        elif r < .65:
            it["size"] = rng.choice((1, 8, 10 ** 6, 2 ** 40))
        elif r < .67:
            it["size"] = rng.choice((0, -8))
        return it, it.get("size", used) if it.get("size", 1) < 10000 else sub

    def seekset(self, it, addr, sub, endian, depth):
        """A set which places its fields in any order."""
        rng = self.rng
        items = []
        size = sub
        cur = 0
        hi = 0
        for _ in range(rng.randint(0, 7)):
            if rng.random() < .6:
                cur = rng.randrange(0, size)
                if rng.random() < .7:
                    cur -= cur % 8
                items.append({"k": "seek", "to": cur, "name": "x"})
            leaf, n = self.leaf(addr + cur, size - cur, endian)
            if leaf is None:
                continue
            items.append(leaf)
            cur += n
            hi = max(hi, cur)
            if not self.fit and rng.random() < .1:
                items.append({"k": "raise", "n": 0})
        it["items"] = items
        if self.fit:
            it["size"] = size
        elif rng.random() < .7:
            it["size"] = max(1, size + rng.choice((0, 0, -8, -20, 40)))
        return it, size


def generate(rng, fit=True, nbytes=None, seek=True, links=True):
    n = nbytes or rng.choice((4, 16, 40, 100, 200, 400))
    data = make_data(rng, n)
    endian = rng.choice(("big", "little", "big", "little", "middle"))
    g = Gen(rng, data, fit, seek=seek, links=links)
    items, end = g.items(0, 8 * n, endian, 0, 20)
    spec = {"endian": endian, "items": items}
    if not fit and rng.random() < .2:
        items.append({"k": "eof", "of": {"k": "uint", "n": rng.choice((8, 16)), "name": "e[]"}, "max": 100000})
    return data, spec


# ------------------------------------------------------- expected layout

class _Names:
    def __init__(self):
        self.count = {}
        self.used = set()

    def array(self, base):
        self.count[base] = self.count.get(base, -1) + 1
        return "%s[%d]" % (base, self.count[base])

    def get(self, name):
        if name.endswith("[]"):
            name = self.array(name[:-2])
        elif name in self.used:
            name = self.array(name)
        self.used.add(name)
        return name


def _fixed(it, addr, endian, path, out):
    """Children of the field sets with a fixed structure."""
    k = it["k"]
    if k == "vector":
        cls, size = ITEMS[it["item"]]
        sub = [("%s[%d]" % (it["iname"], i), it["item"]) for i in range(it["n"])]
    elif k == "words":
        sub = [("word[%d]" % i, "u16") for i in range(it["n"])]
    elif k == "static":
        sub = None
        _item(it["item"], addr, endian, path, out)
        return
    elif k == "msdos":
        names = [("second", 5), ("minute", 6), ("hour", 5), ("day", 5), ("month", 4), ("year", 7)]
        if it["t"] == "dt":
            names = names[3:] + names[:3]
        for n, s in names:
            out.append((path + "/" + n, {"k": "bits", "n": s}, addr, s, endian))
            addr += s
        return
    else:
        return
    for n, item in sub:
        size = ITEMS[item][1]
        leafs = {"u8": ("uint", 8), "u16": ("uint", 16), "u32": ("uint", 32), "i24": ("sint", 24),
                 "bit": ("bit", 1), "char": ("char", 8)}
        if item in leafs:
            kk, nn = leafs[item]
            out.append((path + "/" + n, {"k": kk, "n": nn}, addr, size, endian))
        else:
            out.append((path + "/" + n, {"k": "static", "item": item}, addr, size, endian))
            _item(item, addr, endian, path + "/" + n, out)
        addr += size


def _item(item, addr, endian, path, out):
    if item == "two":
        subs = [("x", {"k": "uint", "n": 8}, 8), ("y", {"k": "bits", "n": 4}, 4),
                ("z", {"k": "bit", "n": 1}, 1), ("w[0]", {"k": "nullbits", "n": 3}, 3)]
    else:
        subs = [("tag", {"k": "bytes", "n": 3}, 24), ("v", {"k": "sint", "n": 16}, 16),
                ("s", {"k": "string", "n": 3, "opt": {"charset": "ASCII"}}, 24)]
    for n, it, s in subs:
        out.append((path + "/" + n, it, addr, s, endian))
        addr += s


def layout(data, spec):
    """Fields which the program must give on data (fit programs only), in
    depth-first order: (path, item, absolute address, size, endian)."""
    out = []
    g = Gen(None, data, True)

    def do(items, start, size, endian, path, seekable):
        names = _Names()
        addr = start
        blocks = []
        for it in items:
            k = it["k"]
            if k in ("peek", "peekmissing"):
                continue
            if k == "seek":
                n = start + it["to"] - addr
                if seekable:
                    addr = start + it["to"]
                elif n > 0:
                    kk = {"k": "padbytes" if n % 8 == 0 else "padbits",
                          "n": n // 8 if n % 8 == 0 else n, "pattern": None}
                    out.append((path + "/" + names.get(it["name"]), kk, addr, n, endian))
                    addr += n
                continue
            name = names.get(it["name"])
            p = path + "/" + name
            if k == "link":
                out.append((p, it, addr, 0, endian))
                continue
            if k in ("set", "seekset"):
                e = it.get("endian") or endian
                pos = len(out)
                out.append(None)
                end = do(it["items"], addr, it.get("size"), e, p, k == "seekset")
                out[pos] = (p, it, addr, end - addr, e)
                blocks.append((addr, end))
                addr = end
                continue
            s = g.size(addr, it, endian)
            out.append((p, it, addr, s, endian))
            _fixed(it, addr, endian, p, out)
            blocks.append((addr, addr + s))
            addr += s
        if size is not None:
            if seekable:
                cur = start
                for a, b in sorted(blocks) + [(start + size, start + size)]:
                    if a > cur:
                        n = a - cur
                        kk = {"k": "raw" if n % 8 == 0 else "rawbits", "n": n // 8 if n % 8 == 0 else n}
                        out.append((path + "/" + names.array("unparsed"), kk, cur, n, endian))
                    cur = max(cur, b)
            elif addr < start + size:
                n = start + size - addr
                kk = {"k": "raw" if n % 8 == 0 else "rawbits", "n": n // 8 if n % 8 == 0 else n}
                out.append((path + "/" + names.array("raw"), kk, addr, n, endian))
            addr = start + size
        return addr
    do(spec["items"], 0, 8 * len(data), spec["endian"], "", False)
    return out
