"""C08: the editor changes what was edited and nothing else.

Each execution edits a tree with a random sequence of value changes, deletions
and insertions.  The oracle is a model: the sequence of the pieces of the file
(the bits of each field), where an edited field has the bits which the
definition of its type gives for the new value.  After every operation: names,
number, sizes, addresses and values of the fields; after some: the output, its
re-parsing, that the input didn't change.
  synth  trees of a parser with random nested fields of all types (bit fields,
         integers, strings, floats, dates, sets), one byte order for bit fields
  file   trees of real and generated files, fields which are contiguous
"""
import io
import re
import struct
from datetime import datetime, timedelta

from vlib import check, corpus, gen
from vlib.check import Result, rng_for
from vlib.env import SEED
from vlib.formats import BY_ID
from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN
from hachoir.editor import (EditableBits, EditorError, EditableBytes, EditableFieldSet, EditableInteger, EditableString,
                            NewFieldSet, createEditor)
from hachoir.editor.typed_field import EditableCharacter, EditableTimestampMac32
from hachoir.field import (Bit, Bits, Bytes, CString, Character, Enum, FieldSet, Float32, Float64, Int8, Int16, Int24,
                           Int32, Int64, MissingField, PaddingBits, PaddingBytes, Parser, PascalString8,
                           PascalString16, PascalString32, RawBits, RawBytes, RootSeekableFieldSet, SeekableFieldSet,
                           String, TimestampMac32, TimestampUnix32, UInt8, UInt16, UInt24, UInt32, UInt64, UnixLine,
                           GenericString)
from hachoir.parser.guess import guessParser
from hachoir.stream import OutputStream, StringInputStream

PID = "C08"
BIG, LITTLE = BIG_ENDIAN, LITTLE_ENDIAN
UINT = {8: UInt8, 16: UInt16, 24: UInt24, 32: UInt32, 64: UInt64}
INT = {8: Int8, 16: Int16, 24: Int24, 32: Int32, 64: Int64}
PASCAL = {1: PascalString8, 2: PascalString16, 4: PascalString32}
MAC = datetime(1904, 1, 1)


# ----------------------------------------------------------- bits as strings
# A piece is a string of "0"/"1" in the order of the stream: most significant
# bit of each byte first for big endian, least significant first for little.

def of_bytes(b, endian):
    s = "".join(format(x, "08b") for x in b)
    if endian == LITTLE:
        s = "".join(s[i:i + 8][::-1] for i in range(0, len(s), 8))
    return s


def of_int(v, n, endian):
    s = format(v & ((1 << n) - 1), "0%db" % n) if n else ""
    return s if endian == BIG else s[::-1]


def to_bytes(s, endian):
    out = bytearray()
    for i in range(0, len(s) - len(s) % 8, 8):
        t = s[i:i + 8]
        out.append(int(t if endian == BIG else t[::-1], 2))
    return bytes(out)


# -------------------------------------------------------------- model of sets

class Leaf:
    is_set = False

    def __init__(self, name, kind, n, endian):
        self.name = name
        self.kind = kind        # type
        self.n = n              # size in bits (fixed types)
        self.endian = endian
        self.bits = ""
        self.value = None       # value set by an edit
        self.edited = False

    def size(self):
        return len(self.bits)

    def flat(self):
        return self.bits

    def encode(self, value):
        k, e = self.kind, self.endian
        if k in ("uint", "int", "bits", "bit", "padbits", "rawbits"):
            return of_int(int(value), self.n, e)
        if k == "char":
            return of_int(ord(value), 8, e)
        if k in ("bytes", "rawbytes", "padding"):
            return of_bytes(value, e)
        if k == "fixed":
            return of_bytes(value, e)
        if k == "c":
            return of_bytes(value + b"\0", e)
        if k == "line":
            return of_bytes(value + b"\n", e)
        if k[:6] == "pascal":
            return of_bytes(len(value).to_bytes(self.n, "big" if e == BIG else "little") + value, e)
        if k == "f32":
            return of_bytes(struct.pack(">f" if e == BIG else "<f", value), e)
        if k == "f64":
            return of_bytes(struct.pack(">d" if e == BIG else "<d", value), e)
        if k == "mac":
            return of_int(int((value - MAC).total_seconds()), 32, e)
        raise KeyError(k)


class Set:
    is_set = True

    def __init__(self, name, endian):
        self.name = name
        self.endian = endian
        self.items = []

    def flat(self):
        return "".join(i.flat() for i in self.items)

    def size(self):
        return sum(i.size() for i in self.items)


READABLE = b"abcdefgh XYZ019._-"


def text(rng, lo, hi):
    return bytes(rng.choice(READABLE) for _ in range(rng.randint(lo, hi)))


def new_leaf(rng, name, endian, aligned):
    """A leaf and its bits"""
    kinds = ["uint", "uint", "int", "bits", "bits", "bit", "padbits", "rawbits", "char"]
    if aligned:
        kinds += ["bytes", "rawbytes", "padding", "fixed", "fixed", "c", "c", "line", "pascal", "pascal", "f32", "f64",
                  "mac", "unix", "uint", "int"]
    k = rng.choice(kinds)
    n = None
    if k in ("uint", "int"):
        n = rng.choice((8, 16, 24, 32, 64))
    elif k in ("bits", "padbits", "rawbits"):
        n = rng.choice((1, 2, 3, 5, 7, 8, 9, 13, 16, 17, 24, 33, 40))
    elif k == "bit":
        n = 1
    elif k == "char":
        n = 8
    elif k == "pascal":
        n = rng.choice((1, 2, 4))
    elif k in ("mac", "unix"):
        n = 32
    leaf = Leaf(name, k, n, endian)
    if k in ("uint", "int", "bits", "padbits", "rawbits", "bit"):
        leaf.bits = of_int(rng.getrandbits(n), n, endian)
    elif k == "char":
        leaf.bits = of_int(rng.choice((0, 65, 127, 128, 255)), 8, endian)
    elif k in ("bytes", "rawbytes", "padding"):
        leaf.bits = leaf.encode(rng.randbytes(rng.choice((1, 2, 5, 20))))
    elif k in ("fixed",):
        leaf.bits = leaf.encode(text(rng, 1, 12))
    elif k in ("c", "line", "pascal"):
        leaf.bits = leaf.encode(text(rng, 0, 12))
    elif k == "f32":
        leaf.bits = leaf.encode(rng.choice((0., 1.5, -2.25, 3e10)))
    elif k == "f64":
        leaf.bits = leaf.encode(rng.choice((0., 1.5, -2.1, 3e100)))
    elif k in ("mac", "unix"):
        leaf.bits = of_int(rng.getrandbits(32), 32, endian)
    return leaf


def build_set(rng, name, endian, depth, pos):
    s = Set(name, endian)
    for i in range(rng.randint(1, 7 if depth else 9)):
        aligned = pos % 8 == 0
        arr = rng.random() < .3
        nm = "item[]" if arr else "f%d" % i
        if arr:
            nm = "item[%d]" % sum(x.name.startswith("item[") for x in s.items)
        if depth < 3 and rng.random() < .2:
            item = build_set(rng, nm, endian, depth + 1, pos)
        else:
            item = new_leaf(rng, nm, endian, aligned)
        pos += item.size()
        s.items.append(item)
    if depth == 0 and pos % 8:
        leaf = Leaf("tail", "bits", -pos % 8, endian)
        leaf.bits = of_int(rng.getrandbits(leaf.n), leaf.n, endian)
        s.items.append(leaf)
    return s


def make_field(parent, leaf):
    k, name, n = leaf.kind, leaf.name, leaf.n
    if "[" in name:
        name = name[:name.index("[")] + "[]"
    nbytes = len(leaf.bits) // 8
    if k == "uint":
        f = UINT[n](parent, name)
        return Enum(f, {1: "one"}) if n == 8 else f
    if k == "int":
        return INT[n](parent, name)
    if k == "bits":
        return Bits(parent, name, n)
    if k == "bit":
        return Bit(parent, name)
    if k == "padbits":
        return PaddingBits(parent, name, n)
    if k == "rawbits":
        return RawBits(parent, name, n)
    if k == "char":
        return Character(parent, name)
    if k == "bytes":
        return Bytes(parent, name, nbytes)
    if k == "rawbytes":
        return RawBytes(parent, name, nbytes)
    if k == "padding":
        return PaddingBytes(parent, name, nbytes)
    if k == "fixed":
        return String(parent, name, nbytes, charset="ISO-8859-1")
    if k == "c":
        return CString(parent, name, charset="ISO-8859-1")
    if k == "line":
        return UnixLine(parent, name, charset="ISO-8859-1")
    if k == "pascal":
        return PASCAL[n](parent, name, charset="ISO-8859-1")
    if k == "f32":
        return Float32(parent, name)
    if k == "f64":
        return Float64(parent, name)
    if k == "mac":
        return TimestampMac32(parent, name)
    return TimestampUnix32(parent, name)


class SubSet(FieldSet):
    def __init__(self, parent, name, spec):
        FieldSet.__init__(self, parent, name, size=spec.size0)
        self.spec = spec

    def createFields(self):
        yield from make_fields(self, self.spec)


def make_fields(parent, spec):
    for item in spec.orig:
        if item.is_set:
            name = item.name
            if "[" in name:
                name = name[:name.index("[")] + "[]"
            yield SubSet(parent, name, item)
        else:
            yield make_field(parent, item)


def freeze(spec):
    """remember the original fields"""
    spec.orig = []
    spec.size0 = spec.size()
    for i in spec.items:
        if i.is_set:
            freeze(i)
            spec.orig.append(i)
        else:
            o = Leaf(i.name, i.kind, i.n, i.endian)
            o.bits = i.bits
            i.original = i.bits
            spec.orig.append(o)


class P08Big(Parser):
    endian = BIG
    PARSER_TAGS = {"id": "p08", "category": "misc", "min_size": 1, "description": "c08"}

    def __init__(self, stream, spec=None):
        self.spec = spec
        Parser.__init__(self, stream)

    def validate(self):
        return True

    def createFields(self):
        yield from make_fields(self, self.spec)


class P08Little(P08Big):
    endian = LITTLE
    PARSER_TAGS = dict(P08Big.PARSER_TAGS, id="p08l")


# --------------------------------------------------------------- edit values

def good_value(rng, leaf):
    """(value to set, same size) which the field can represent"""
    k, n = leaf.kind, leaf.n
    if k == "uint":
        return rng.choice((0, 1, (1 << n) - 1, 1 << (n - 1), rng.getrandbits(n)))
    if k == "int":
        return rng.choice((0, -1, 1, -(1 << (n - 1)), (1 << (n - 1)) - 1, rng.getrandbits(n) - (1 << (n - 1))))
    if k in ("bits", "padbits", "rawbits"):
        return rng.choice((0, (1 << n) - 1, rng.getrandbits(n)))
    if k == "bit":
        return rng.choice((True, False))
    if k == "char":
        return chr(rng.choice((0, 65, 66, 127, 128, 233, 255)))
    if k in ("bytes", "rawbytes", "padding"):
        return rng.randbytes(len(leaf.bits) // 8 if rng.random() < .5 else rng.choice((1, 2, 7, 30)))
    if k == "fixed":
        return text(rng, len(leaf.bits) // 8, len(leaf.bits) // 8) if rng.random() < .5 else text(rng, 1, 20)
    if k in ("c", "line"):
        return text(rng, 0, 20)
    if k == "pascal":
        return text(rng, 0, rng.choice((0, 5, 30, 255)))
    if k == "f32":
        return struct.unpack("<f", struct.pack("<f", rng.choice((0., 1., -1.5, 1e30, 1e-30, rng.uniform(-1000, 1000)))))[0]
    if k == "f64":
        return rng.choice((0., 1., -1.5, 1e300, 1e-300, rng.uniform(-1000, 1000)))
    if k == "mac":
        return MAC + timedelta(seconds=rng.choice((0, 1, 2 ** 31, 2 ** 32 - 1, rng.getrandbits(32))))
    return None


def bad_value(rng, leaf):
    """value which the field can't represent, or None"""
    k, n = leaf.kind, leaf.n
    if k == "uint":
        return rng.choice((-1, 1 << n, (1 << n) + 5, 1 << 70, "x", b"1"))
    if k == "int":
        return rng.choice((1 << (n - 1), -(1 << (n - 1)) - 1, 1 << n, -(1 << n), "x"))
    if k in ("bits", "padbits", "rawbits", "bit"):
        return rng.choice((-1, 1 << n, 1 << 70, "x"))
    if k == "char":
        return rng.choice(("", "ab", "\u20ac", 65))
    if k in ("bytes", "rawbytes", "padding"):
        return rng.choice((b"", "text", 5))
    if k == "fixed":
        return rng.choice((5, "\u20ac"))
    if k == "c":
        return rng.choice((5, b"a\0b", b"\0", "\u20ac"))
    if k == "line":
        return rng.choice((5, b"a\nb", b"\n", "\u20ac"))
    if k == "pascal":
        if n == 4:
            return 5
        return b"x" * ((1 << (8 * n)) + rng.randint(0, 3)) if rng.random() < .8 else 5
    if k == "f32":
        return rng.choice((1e39, -1e300, "x"))
    if k == "f64":
        return rng.choice(("x", b"1.5"))
    if k == "mac":
        return rng.choice((MAC - timedelta(seconds=1), MAC + timedelta(seconds=2 ** 32), MAC + timedelta(seconds=5, microseconds=7), 12))
    return rng.choice((5, datetime(2000, 1, 1), b"x"))


class Refused(Exception):
    pass


def output_of(editor):
    out = io.BytesIO()
    stream = OutputStream(out)
    editor.writeInto(stream)
    stream.flush() if hasattr(stream, "flush") else None
    return out.getvalue()


class Session:
    """An editor and its model"""

    def __init__(self, res, rng, label):
        self.res, self.rng, self.label = res, rng, label
        self.endian = rng.choice((BIG, LITTLE))
        self.spec = build_set(rng, "/", self.endian, 0, 0)
        freeze(self.spec)
        self.bits0 = self.spec.flat()
        self.data = to_bytes(self.bits0, self.endian)
        self.cls = P08Big if self.endian == BIG else P08Little
        self.stream = StringInputStream(self.data)
        self.parser = self.cls(self.stream, spec=self.spec)
        self.editor = createEditor(self.parser)
        self.log = []
        self.counter = 0
        self.used = set()
        self.structural = False

    def fail(self, key, msg):
        self.res.fail("synth:" + key, "%s: %s; operations: %s" % (self.label, msg, " | ".join(self.log[-8:])), data=self.data.hex()[:400])

    def sets(self):
        out = [("", self.spec)]
        i = 0
        while i < len(out):
            path, s = out[i]
            for item in s.items:
                if item.is_set:
                    out.append((path + "/" + item.name if path else item.name, item))
            i += 1
        return out

    def get(self, path):
        return self.editor[path] if path else self.editor

    def op_sign(self):
        """the sign bit of a float"""
        cands = [(p, s, i) for p, s in self.sets() for i in s.items if not i.is_set and i.kind in ("f32", "f64")]
        if not cands:
            return
        path, s, leaf = self.rng.choice(cands)
        full = path + "/" + leaf.name if path else leaf.name
        self.log.append("%s/negative inverted" % full)
        try:
            f = self.editor[full + "/negative"]
            f.value = not f.value
        except Exception as err:
            return self.fail("sign:" + type(err).__name__, "%s" % err)
        at = 0 if leaf.endian == BIG else len(leaf.bits) - 1
        leaf.bits = leaf.bits[:at] + ("1" if leaf.bits[at] == "0" else "0") + leaf.bits[at + 1:]
        raw = to_bytes(leaf.bits, leaf.endian)
        leaf.value = struct.unpack((">" if leaf.endian == BIG else "<") + leaf.kind.replace("f32", "f").replace("f64", "d"), raw)[0]
        leaf.edited = True
        self.res.ev("edited: sign of floats")

    # operations
    def op_value(self):
        rng = self.rng
        cands = [(p, s, i) for p, s in self.sets() for i in s.items if not i.is_set]
        if not cands:
            return
        path, s, leaf = rng.choice(cands)
        full = path + "/" + leaf.name if path else leaf.name
        value = good_value(rng, leaf)
        if value is None:
            return
        if leaf.kind in ("fixed", "c", "line", "pascal") and rng.random() < .3:
            arg = value.decode("ISO-8859-1")
        else:
            arg = value
        self.log.append("%s (%s) = %r" % (full, leaf.kind, arg))
        try:
            self.editor[full].value = arg
        except Exception as err:
            return self.fail("refused:%s:%s" % (leaf.kind, type(err).__name__), "the value is refused: %s" % err)
        if len(leaf.encode(value)) != len(leaf.bits):
            self.structural = True
        leaf.bits = leaf.encode(value)
        leaf.value, leaf.edited = arg, True
        self.res.ev("edited: " + leaf.kind)

    def op_bad(self):
        rng = self.rng
        cands = [(p, s, i) for p, s in self.sets() for i in s.items if not i.is_set]
        if not cands:
            return
        path, s, leaf = rng.choice(cands)
        full = path + "/" + leaf.name if path else leaf.name
        value = bad_value(rng, leaf)
        self.log.append("%s (%s) = %.60r refused" % (full, leaf.kind, value))
        try:
            self.editor[full].value = value
        except Exception:
            self.res.ev("refused values")
            return
        # accepted: then it must be what is read again; the monitors of the
        # output would see another value
        self.fail("accepted:" + leaf.kind, "the field accepts the value %.80r" % (value,))

    def op_undo(self):
        cands = [(p, s, i) for p, s in self.sets() for i in s.items if not i.is_set and i.edited and hasattr(i, "original")]
        if not cands:
            return
        path, s, leaf = self.rng.choice(cands)
        full = path + "/" + leaf.name if path else leaf.name
        f = self.parser
        f = f[full]
        value = f.value
        if leaf.kind in ("fixed", "c", "line", "pascal"):
            if leaf.kind == "fixed":
                value = to_bytes(leaf.original, leaf.endian)
            elif leaf.kind == "pascal":
                value = to_bytes(leaf.original, leaf.endian)[leaf.n:]
            else:
                value = to_bytes(leaf.original, leaf.endian)[:-1]
        elif leaf.kind in ("bytes", "rawbytes", "padding"):
            value = to_bytes(leaf.original, leaf.endian)
        self.log.append("%s (%s) undo %r" % (full, leaf.kind, value))
        try:
            self.editor[full].value = value
        except Exception as err:
            return self.fail("undo:%s:%s" % (leaf.kind, type(err).__name__), "the original value is refused: %s" % err)
        leaf.bits = leaf.original
        leaf.value, leaf.edited = value, True
        self.res.ev("undone")

    def op_delete(self):
        cands = [(p, s, i) for p, s in self.sets() for i in s.items]
        if not cands:
            return
        path, s, item = self.rng.choice(cands)
        full = path + "/" + item.name if path else item.name
        self.log.append("del %s" % full)
        try:
            if self.rng.random() < .5:
                del self.editor[full]
            else:
                del self.get(path)[item.name]
        except Exception as err:
            return self.fail("delete:" + type(err).__name__, "%s" % err)
        s.items.remove(item)
        self.structural = True
        self.res.ev("deleted")

    def op_delete_missing(self):
        path, s = self.rng.choice(self.sets())
        name = self.rng.choice(("nothing", "item[99]", "f99"))
        self.log.append("del %s/%s (missing)" % (path, name))
        try:
            del self.get(path)[name]
        except MissingField:
            self.res.ev("refused deletions")
        except Exception as err:
            self.fail("delete-missing:" + type(err).__name__, "%s" % err)
        else:
            self.fail("delete-missing", "a missing field is deleted")

    def new_field(self, path, s):
        """(field, Leaf)"""
        rng = self.rng
        parent = self.get(path)
        self.counter += 1
        name = "new%d" % self.counter
        e = s.endian
        free = [i.name for i in s.orig if i.name not in [x.name for x in s.items]] if hasattr(s, "orig") else []
        r = rng.random()
        if free and r < .15:
            # the name of a deleted field
            name = rng.choice(free)
            if name in self.used:
                name = "new%d" % self.counter
        elif r < .3:
            name = rng.choice(("array[]", "item[]"))
        self.used.add(name)
        k = rng.choice(("int", "uint", "bits", "bytes", "fixed", "c", "pascal", "char", "mac"))
        if k in ("int", "uint"):
            n = rng.choice((8, 16, 24, 32, 64))
            leaf = Leaf(name, k, n, e)
            v = good_value(rng, leaf)
            f = EditableInteger(parent, name, k == "int", n, v)
        elif k == "bits":
            leaf = Leaf(name, k, rng.choice((1, 3, 8, 8, 16, 24)), e)
            v = good_value(rng, leaf)
            f = EditableBits(parent, name, leaf.n, v)
        elif k == "bytes":
            leaf = Leaf(name, k, None, e)
            v = rng.randbytes(rng.randint(1, 9))
            f = EditableBytes(parent, name, v)
        elif k == "char":
            leaf = Leaf(name, k, 8, e)
            v = good_value(rng, leaf)
            f = EditableCharacter(parent, name, v)
        elif k == "mac":
            leaf = Leaf(name, k, 32, e)
            v = good_value(rng, leaf)
            f = EditableTimestampMac32(parent, name, v)
        else:
            leaf = Leaf(name, k, {"pascal": rng.choice((1, 2, 4))}.get(k), e)
            v = text(rng, 1, 9)
            fmt = {"fixed": "fixed", "c": "C", "pascal": "Pascal%d" % (8 * (leaf.n or 0))}[k]
            f = EditableString(parent, name, fmt, v, charset="ISO-8859-1")
        leaf.bits = leaf.encode(v)
        leaf.value, leaf.edited = v, True
        return f, leaf

    def op_insert(self):
        rng = self.rng
        path, s = rng.choice(self.sets())
        try:
            made = [self.new_field(path, s) for _ in range(rng.choice((1, 1, 1, 2, 3)))]
        except Exception as err:
            return self.fail("new:" + type(err).__name__, "new field: %s" % err)
        fields = [f for f, leaf in made]
        leaves = [leaf for f, leaf in made]
        ed = self.get(path)
        r = rng.random()
        names = [i.name for i in s.items]
        try:
            if r < .2 or not names:
                self.log.append("%s: insert %s" % (path or "/", [(x.name, x.kind) for x in leaves]))
                ed.insert(*fields)
                s.items.extend(leaves)
            else:
                at = rng.randrange(len(names))
                if r < .6:
                    self.log.append("%s: insertBefore %s %s" % (path or "/", names[at], [(x.name, x.kind) for x in leaves]))
                    ed.insertBefore(names[at], *fields)
                    s.items[at:at] = leaves
                else:
                    self.log.append("%s: insertAfter %s %s" % (path or "/", names[at], [(x.name, x.kind) for x in leaves]))
                    ed.insertAfter(names[at], *fields)
                    s.items[at + 1:at + 1] = leaves
        except Exception as err:
            return self.fail("insert:" + type(err).__name__, "%s" % err)
        for f, leaf in made:
            if leaf.name.endswith("[]"):
                base, leaf.name = leaf.name, f.name
                self.res.ev("inserted in arrays")
                if not re.fullmatch(re.escape(base[:-1]) + r"[0-9]+\]", f.name) or [i.name for i in s.items].count(f.name) > 1:
                    self.fail("array-name", "%s is named %r" % (base, f.name))
        self.structural = True
        self.res.ev("inserted", len(leaves))

    def op_insert_bad(self):
        """duplicate names, missing anchors"""
        rng = self.rng
        path, s = rng.choice(self.sets())
        if not s.items:
            return
        ed = self.get(path)
        r = rng.random()
        try:
            if r < .5:
                name = rng.choice(s.items).name
                self.log.append("%s: insert duplicate %s" % (path or "/", name))
                ed.insert(EditableBytes(ed, name, b"dup"))
            else:
                self.log.append("%s: insert at missing" % (path or "/"))
                getattr(ed, rng.choice(("insertBefore", "insertAfter")))("nothing", EditableBytes(ed, "newx", b"x"))
        except Exception:
            self.res.ev("refused insertions")
            return
        self.fail("insert-accepted", "the insertion is accepted")

    def op_new_set(self):
        rng = self.rng
        path, s = rng.choice(self.sets())
        ed = self.get(path)
        self.counter += 1
        name = "newset%d" % self.counter
        try:
            ns = NewFieldSet(ed, name)
            m = Set(name, s.endian)
            for j in range(rng.randint(1, 3)):
                v = rng.getrandbits(16)
                ns.insert(EditableInteger(ns, "v%d" % j, False, 16, v))
                leaf = Leaf("v%d" % j, "uint", 16, s.endian)
                leaf.bits = leaf.encode(v)
                leaf.value, leaf.edited = v, True
                m.items.append(leaf)
            self.log.append("%s: insert set %s" % (path or "/", name))
            ed.insert(ns)
        except Exception as err:
            return self.fail("new-set:" + type(err).__name__, "%s" % err)
        m.keep = ns
        s.items.append(m)
        self.structural = True
        self.res.ev("inserted sets")

    def op_reset(self):
        path, s = self.rng.choice(self.sets())
        if any(i.name == path.split("/")[-1] and not hasattr(i, "orig") for p, i in self.sets()) or not hasattr(s, "orig"):
            return
        self.log.append("%s: reset" % (path or "/"))
        try:
            self.get(path).reset()
        except Exception as err:
            return self.fail("reset:" + type(err).__name__, "%s" % err)
        self.res.ev("resets")

    # monitors
    def check_sets(self):
        res = self.res
        for path, s in self.sets():
            try:
                ed = self.get(path)
            except Exception as err:
                return self.fail("get:" + type(err).__name__, "editor[%r]: %s" % (path, err))
            try:
                names = [f.name for f in ed]
                want = [i.name for i in s.items]
                res.evals += 1
                if names != want:
                    return self.fail("names", "fields of %s: %s instead of %s" % (path or "/", names, want))
                res.evals += 1
                if len(ed) != len(want):
                    self.fail("len", "len(%s) is %s instead of %s" % (path or "/", len(ed), len(want)))
                if ed.size != s.size():
                    self.fail("set-size", "size of %s: %s instead of %s" % (path or "/", ed.size, s.size()))
                pos = 0
                for i in s.items:
                    if i.name not in ed:
                        self.fail("contains", "%s not in %s" % (i.name, path or "/"))
                        continue
                    f = ed[i.name]
                    res.evals += 3
                    if f.size != i.size():
                        self.fail("size", "size of %s/%s: %s instead of %s" % (path, i.name, f.size, i.size()))
                    if f.address != pos:
                        self.fail("address", "address of %s/%s: %s instead of %s" % (path, i.name, f.address, pos))
                    pos += i.size()
                    if i.is_set:
                        continue
                    want_value = i.value if i.edited else None
                    if want_value is not None:
                        got = f.value
                        same = got == want_value
                        if isinstance(want_value, bytes) != isinstance(got, bytes) and isinstance(got, (str, bytes)) and \
                                isinstance(want_value, (str, bytes)):
                            same = (got if isinstance(got, bytes) else got.encode("ISO-8859-1")) == (
                                want_value if isinstance(want_value, bytes) else want_value.encode("ISO-8859-1"))
                        if not same:
                            self.fail("value:" + i.kind, "value of %s/%s: %r instead of %r" % (path, i.name, got, want_value))
                for i in s.orig if hasattr(s, "orig") else ():
                    if i.name not in want and i.name in ed:
                        self.fail("contains", "deleted %s is in %s" % (i.name, path or "/"))
            except Exception as err:
                import traceback
                return self.fail("set:" + type(err).__name__, "%s: %s: %s" % (path or "/", err, traceback.format_exc()[-300:]))

    def check_output(self):
        res = self.res
        want = to_bytes(self.spec.flat(), self.endian)
        try:
            got = output_of(self.editor)
        except NotImplementedError:
            # bytes at a position which isn't a multiple of 8
            if self.unaligned():
                res.ev("unaligned output refused")
                return
            return self.fail("output:NotImplementedError", "writeInto")
        except Exception as err:
            import traceback
            return self.fail("output:" + type(err).__name__, "writeInto: %s %s" % (err, traceback.format_exc()[-300:]))
        res.evals += 1
        res.ev("outputs")
        if got != want:
            n = next((j for j, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            return self.fail("output", "output differs at byte %d: %d bytes instead of %d: ..%s instead of ..%s" % (
                n, len(got), len(want), got[n:n + 8].hex(), want[n:n + 8].hex()))
        if got == self.data:
            res.ev("outputs equal to the input")
        if not self.structural:
            # same layout: the values are read again
            try:
                p = self.cls(StringInputStream(got), spec=self.spec)
                for path, s in self.sets():
                    for i in s.items:
                        if not i.is_set and i.edited:
                            full = path + "/" + i.name if path else i.name
                            v = p[full].value
                            w = i.value
                            if isinstance(w, bytes) and isinstance(v, str):
                                w = w.decode("ISO-8859-1")
                            res.evals += 1
                            res.ev("values parsed again")
                            if v != w:
                                self.fail("reparse:" + i.kind, "%s is %r in the output, %r was set" % (full, v, w))
            except Exception as err:
                self.fail("reparse:" + type(err).__name__, "%s" % err)

    def unaligned(self):
        """is there a field of bytes at an odd position?"""
        def visit(s, pos):
            for i in s.items:
                if i.is_set:
                    r, pos = visit(i, pos)
                    if r:
                        return True, pos
                else:
                    if pos % 8 and i.kind in ("bytes", "rawbytes", "padding", "fixed", "c", "line", "pascal", "f32", "f64"):
                        return True, pos
                    pos += i.size()
            return False, pos
        return visit(self.spec, 0)[0]

    def check_input(self):
        self.res.evals += 1
        if self.stream.data != self.data:
            self.fail("input", "the input was modified")
        p = self.cls(StringInputStream(self.data), spec=self.spec)

        def same(a, b):
            na, nb = [f.name for f in a], [f.name for f in b]
            if na != nb:
                return self.fail("input-names", "input fields %s instead of %s" % (na, nb))
            for f, g in zip(a, b):
                if (f.address, f.size) != (g.address, g.size):
                    return self.fail("input-field", "input field %s changed" % f.path)
                if f.is_field_set:
                    same(f, g)
                elif f.value != g.value and f.value == f.value:
                    return self.fail("input-value", "input field %s is %r instead of %r" % (f.path, f.value, g.value))
        try:
            same(self.parser, p)
        except Exception as err:
            self.fail("input:" + type(err).__name__, "%s" % err)

    def run(self):
        rng = self.rng
        ops = [self.op_value] * 6 + [self.op_bad] * 2 + [self.op_sign, self.op_undo, self.op_reset, self.op_insert_bad, self.op_delete_missing]
        if rng.random() < .6:
            ops += [self.op_delete] * 2 + [self.op_insert] * 3 + [self.op_new_set]
        if rng.random() < .3:
            for f in self.parser:
                pass
        self.check_output()
        n0 = self.res.events.get("violations_raw", 0)
        for _ in range(rng.randint(1, 8)):
            rng.choice(ops)()
            self.check_sets()
            if rng.random() < .5:
                self.check_output()
            if self.res.events.get("violations_raw", 0) != n0:
                return      # the model and the editor differ from now on
        self.check_output()
        self.check_output()
        if rng.random() < .4:
            self.check_input()


def synth_case(k):
    res = Result()
    rng = rng_for(PID, SEED, "synth", k)
    for j in range(6):
        s = Session(res, rng, "synth #%d.%d" % (k, j))
        s.run()
        res.ev("sessions")
        res.seen(s.data, s.log)
        if k < 2 and j < 2:
            res.samples.append("synth #%d.%d: %d bytes: %s" % (k, j, len(s.data), " | ".join(s.log)[:300]))
        if res.viol:
            break
    return res


# -------------------------------------------------------------------- files

def contiguous(fs, limit):
    """(fields, whole): fields of the set, if they cover it in order"""
    out = []
    pos = 0
    for f in fs:
        if f.address != pos:
            return None
        pos += f.size
        out.append(f)
        if len(out) > limit:
            return None
    return out if pos == fs.size else None


def editable_leaves(root, limit=400):
    """Leaves such that all sets above are contiguous"""
    out = []
    todo = [root]
    count = 0
    while todo:
        fs = todo.pop()
        if isinstance(fs, (SeekableFieldSet, RootSeekableFieldSet)):
            if fs is root:
                return []
            continue
        try:
            fields = contiguous(fs, limit)
        except Exception:
            fields = None
        if fields is None:
            if fs is root:
                return []
            continue
        count += len(fields)
        for f in fields:
            if type(f) in (Float32, Float64):
                out.append(f)
            elif f.is_field_set:
                if count < 3000:
                    todo.append(f)
            else:
                out.append(f)
    return out


NOSPLICE = ("MIDDLE",)


def edit_of(rng, f):
    """(value to set, raw bytes or (bits value)) or None"""
    e = f.parent.endian
    if e not in (BIG, LITTLE):
        return None
    from hachoir.field import isInteger
    order = "big" if e == BIG else "little"
    if type(f) in (Float32, Float64):
        if f.absolute_address % 8:
            return None
        v = rng.choice((0., 1.5, -2.))
        return v, struct.pack((">" if e == BIG else "<") + ("f" if type(f) is Float32 else "d"), v)
    if isInteger(f) and f.size in (8, 16, 24, 32, 64) and f.absolute_address % 8 == 0:
        n = f.size
        raw = rng.getrandbits(n)
        return raw - (1 << n) if f.signed and raw >> (n - 1) else raw, raw.to_bytes(n // 8, order)
    if type(f) in (RawBytes, Bytes, PaddingBytes) and f.absolute_address % 8 == 0:
        b = rng.randbytes(rng.choice((f.size // 8, 1, 9)) or 1)[:5000]
        return b, b
    if isinstance(f, GenericString) and f.charset in (None, "ASCII", "ISO-8859-1", "UTF-8") and f.absolute_address % 8 == 0:
        b = text(rng, 0, 12)
        if f.format == "fixed":
            b = b.ljust(f.size // 8, b" ")[:f.size // 8] if rng.random() < .5 else b
            return b, b
        if f.format == "C":
            return b, b + b"\0"
        if f.format == "UnixLine":
            return b, b + b"\n"
        if f.format == "WindowsLine":
            return b, b + b"\r\n"
        if f.format.startswith("Pascal"):
            n = int(f.format[6:]) // 8
            return b, len(b).to_bytes(n, order) + b
    if type(f) in (Bits, Bit, RawBits, PaddingBits):
        return rng.getrandbits(f.size), None
    return None


def splice_bits(data, addr, n, v, endian):
    first, last = addr // 8, (addr + n + 7) // 8
    s = of_bytes(data[first:last], endian)
    a = addr - 8 * first
    s = s[:a] + of_int(v, n, endian) + s[a + n:]
    return data[:first] + to_bytes(s, endian) + data[last:]


def file_case(kind, name, k):
    res = Result()
    rng = rng_for(PID, SEED, kind, name, k)
    label = "%s %s #%d" % (kind, name, k)
    if kind == "sample":
        data = corpus.load(name)
        p = guessParser(StringInputStream(data, tags=(("filename", name),)))
    else:
        g = gen.make(name, rng)
        data = g.data
        try:
            p = BY_ID[g.parser](StringInputStream(data), validate=True)
        except Exception:
            return res
    if p is None:
        return res
    ed = createEditor(p)
    key = "file:"
    try:
        out = output_of(ed)
    except Exception as err:
        res.fail(key + "copy:" + type(err).__name__, "%s: writing the unchanged file: %s" % (label, err))
        return res
    res.expect(out == data[:p.size // 8], key + "copy", "%s: the unchanged file is written differently (%d bytes, %d)" % (
        label, len(out), len(data)))
    res.ev("unchanged files written")
    gaps(res, rng, p, data, label)
    leaves = editable_leaves(p)
    if not leaves:
        res.ev("trees which aren't contiguous")
        return res
    res.seen(data, k)
    for _ in range(4):
        ed = createEditor(p)
        edits = []
        for f in rng.sample(leaves, min(len(leaves), rng.randint(1, 5))):
            if any(f is x[0] for x in edits):
                continue
            if rng.random() < .2:
                if f.absolute_address % 8 or f.size % 8:
                    continue
                edits.append((f, None, b""))
            else:
                e = edit_of(rng, f)
                if e is not None:
                    edits.append((f,) + e)
        if not edits:
            continue
        desc = "; ".join("%s %s" % (f.path, "deleted" if v is None else "= %.40r" % (v,)) for f, v, raw in edits)
        try:
            for f, v, raw in edits:
                if v is None:
                    del ed[f.path[1:]]
                else:
                    ed[f.path[1:]].value = v
            out = output_of(ed)
        except Exception as err:
            import traceback
            res.fail(key + "edit:" + type(err).__name__, "%s: %s: %s: %s" % (label, desc, err, traceback.format_exc()[-250:]))
            continue
        want = data[:p.size // 8]
        # from the end, so that the addresses stay right
        for f, v, raw in sorted(edits, key=lambda x: -x[0].absolute_address):
            if raw is None:
                want = splice_bits(want, f.absolute_address, f.size, v, f.parent.endian)
            else:
                a = f.absolute_address // 8
                want = want[:a] + raw + want[a + f.size // 8:]
        res.evals += 1
        res.ev("edited files written")
        res.ev("edits of files", len(edits))
        if out != want:
            n = next((j for j, (a, b) in enumerate(zip(out, want)) if a != b), min(len(out), len(want)))
            res.fail(key + "output", "%s: %s: output differs at byte %d (%d bytes instead of %d)" % (label, desc, n, len(out), len(want)))
        res.expect(ed.size == 8 * len(want), key + "size", "%s: %s: size is %s instead of %s" % (label, desc, ed.size, 8 * len(want)))
    res.expect(p.stream.data == data, key + "input", "%s: the input was modified" % label)
    return res


def has_gaps(fs):
    pos = 0
    for f in fs:
        if f.address != pos:
            return True
        pos += f.size
    return pos != fs.size


def gaps(res, rng, p, data, label):
    """Fields which don't follow each other: edited right or refused"""
    cands = []
    todo = [p]
    count = 0
    while todo and count < 1500:
        fs = todo.pop()
        try:
            fields = list(fs)
            gap = has_gaps(fs)
        except Exception:
            continue
        count += len(fields)
        for f in fields:
            if f.is_field_set:
                todo.append(f)
            elif gap:
                cands.append(f)
    for f in rng.sample(cands, min(4, len(cands))):
        e = edit_of(rng, f)
        if e is None or (e[1] is not None and 8 * len(e[1]) != f.size):
            continue
        ed = createEditor(p)
        try:
            ed[f.path[1:]].value = e[0]
            out = output_of(ed)
        except EditorError:
            res.evals += 1
            res.ev("trees which aren't contiguous edited")
            continue
        except Exception as err:
            res.fail("file:gaps:" + type(err).__name__, "%s: %s = %.40r: %s" % (label, f.path, e[0], err))
            continue
        res.evals += 1
        res.ev("trees which aren't contiguous edited")
        if e[1] is None:
            want = splice_bits(data[:p.size // 8], f.absolute_address, f.size, e[0], f.parent.endian)
        else:
            a = f.absolute_address // 8
            want = data[:a] + e[1] + data[a + f.size // 8:p.size // 8]
        res.expect(out == want, "file:gaps", "%s: %s = %.40r: the fields of %s aren't contiguous, the output isn't the input with the new value"
                   " (%d bytes, %d)" % (label, f.path, e[0], f.parent.path, len(out), len(want)))


def case(c):
    kind, name, k = c
    if kind == "synth":
        return synth_case(k)
    return file_case(kind, name, k)


def main():
    c = check.Check(PID, "tree and sequence of edits; file and edits",
                    required=("outputs", "values parsed again", "deleted", "inserted", "inserted sets", "undone", "resets",
                              "refused values", "refused deletions", "refused insertions", "edited files written",
                              "unchanged files written", "edited: uint", "edited: int", "edited: bits", "edited: bytes",
                              "edited: fixed", "edited: c", "edited: pascal", "edited: f32", "edited: mac", "edited: char", "edited: sign of floats", "inserted in arrays",
                              "trees which aren't contiguous edited"))
    names = gen.names()
    samples = [n for n in corpus.names() if len(corpus.load(n)) <= 600000]
    cases = []
    for k in range(c.n(2500, 40000)):
        cases.append(("synth", "", k))
        if k % 40 == 0:
            cases += [("gen", n, k // 40) for n in names]
        if k % 600 == 0:
            cases += [("sample", n, k // 600) for n in samples]
    c.run(case, cases, timeout=240, deadline=c.deadline(150, 3000), on_timeout=c.note_timeout)
    return c.finish()


if __name__ == "__main__":
    raise SystemExit(main())
