"""C05: field values are the decoding of the bits they cover.

Programs of fields which fit their data are laid out and decoded by an
independent model; every leaf of the tree is compared with it, over several
kinds of streams, at random bit addresses (orphan fields), with crafted bit
patterns, and in trees of real and damaged files."""
import codecs
import io
import math
import struct
from datetime import datetime, timedelta
from fractions import Fraction

from vlib import check, corpus, model, sources, synth
from vlib.check import Result, rng_for
from vlib.env import SEED
from hachoir.core.text_handler import filesizeHandler, hexadecimal, textHandler
from hachoir.field import (
    Bit, Bits, Bytes, Character, Enum, GenericInteger, GenericString, RawBits, RawBytes, String,
    createOrphanField, Float32, Float64, Float80)
from hachoir.field.timestamp import GenericTimestamp  # noqa
from hachoir.stream import InputIOStream, InputSubStream, StringInputStream

PID = "C05"
NAMES = {v: k for k, v in synth.ENDIAN.items()}
BITS_KINDS = ("bits", "rawbits", "uint", "padbits", "nullbits")
MAXDT, MINDT = datetime.max, datetime.min


class Any_:
    pass


ANY = Any_()


def timevalue(t, v):
    """(value, tolerance in microseconds)"""
    if t in ("unix32", "unix64"):
        return (model.epoch(model.UNIX, v) if v < 1 << 31 else None), 0
    if t == "mac32":
        return model.epoch(model.MAC, v), 0
    if t == "uuid60":
        return model.epoch(model.UUID, us=v // 10), 20
    if t == "win64":
        return model.epoch(model.WIN, us=v // 10), 1
    try:
        if t == "dwin64":
            return timedelta(microseconds=v // 10), 1
        return timedelta(milliseconds=v), 0
    except OverflowError:
        return None, 0


def decode(raw, charset, opt):
    if charset == "UTF-16-LE" and len(raw) % 2:
        # documented repair of a truncated string
        try:
            text = (raw + b"\0").decode("utf-16-le")
            try:
                raw.decode("utf-16-le")
            except UnicodeDecodeError as err:
                if err.reason != "truncated data" or err.end != len(raw):
                    text = raw.decode("latin-1")
        except UnicodeDecodeError:
            text = raw.decode("latin-1")
    else:
        try:
            text = raw.decode(charset)
        except UnicodeDecodeError:
            text = raw.decode("latin-1")
    t = opt.get("truncate")
    if t and t in text:
        text = text[:text.index(t)]
    s = opt.get("strip")
    if s:
        text = text.strip() if s is True else text.strip(s)
    return text


def close80(got, want, num):
    """The result is a Python float: relative to the scale of the number."""
    if want is None:
        return got is None
    e = num >> 64 & 0x7fff
    if got is None and e >= 16383 + 1023:
        return True
    if got is None:
        return abs(want) >= Fraction(2) ** 1023
    if not isinstance(got, float) or math.isinf(got) or math.isnan(got):
        return False
    return abs(Fraction(got) - want) <= Fraction(2) ** (e - 16383 - 50) + Fraction(1, 2 ** 1070)


def check_leaf(res, data, f, it, addr, size, endian, what):
    """Compare field f with the decoding of the bits."""
    k = it["k"]
    aligned = addr % 8 == 0
    key = k + (":" + it["t"] if k in ("time", "msdos") else str(it.get("n", "")) if k == "float" else "")
    where = "%s %s @%d+%d %s" % (what, it, addr, size, endian)

    def bad(name, got, want):
        res.fail("%s:%s" % (key, name), "%s: %s is %r, expected %r" % (where, name, got, want))

    try:
        got = f.value
    except Exception as err:
        res.fail(key + ":raise", "%s: value raises %r" % (where, err))
        return
    res.evals += 1
    res.ev("kind:" + k)
    raw = data[addr // 8:addr // 8 + size // 8] if aligned and size % 8 == 0 else None
    v = model.bits(data, addr, size, endian)
    if k in BITS_KINDS or (k == "gint" and not it["signed"]):
        if type(got) is not int or got != v:
            return bad("value", got, v)
        plain = str(v) if size < 256 else "<%s size=%d>" % (type(f).__name__, size)
        raws = [plain]
        if k == "nullbits" and v & ((1 << size) - 1) == 0 and size <= 128:
            plain = "<null>"
        elif k == "padbits" and it.get("pattern") == 0 and v == 0 and size <= 128:
            plain = "<padding pattern=0>"
        elif k in ("nullbits", "padbits") and size > 128:
            plain = None
    elif k in ("sint", "gint"):
        v = model.signed(v, size)
        if type(got) is not int or got != v:
            return bad("value", got, v)
        plain = str(v) if size < 256 else "<%s size=%d>" % (type(f).__name__, size)
        raws = [plain]
    elif k == "bit":
        if got is not (v == 1):
            return bad("value", got, v == 1)
        plain, raws = str(got), [str(v)]
    elif k == "char":
        if got != chr(v):
            return bad("value", got, chr(v))
        plain, raws = None, [str(v)]
        if 32 <= v < 127 and v not in (39, 92):
            plain = "'%s'" % chr(v)
    elif k in ("bytes", "raw", "padbytes", "nullbytes"):
        if not aligned:
            if got is not None:
                bad("value", got, None)
            return
        if got != raw:
            return bad("value", got, raw)
        plain, raws = None, None
        pat = b"\0" if k == "nullbytes" else it.get("pattern")
        if k in ("padbytes", "nullbytes") and pat is not None:
            ok = all(raw[i:i + len(pat)] == pat for i in range(0, len(raw), len(pat)))
            if ok:
                plain = "<null>" if k == "nullbytes" else \
                    "<padding pattern=%s>" % {b"\0": "'\\0'", b"ab": "'ab'", b"\xff": "'\\xff'"}.get(pat, None)
                if pat not in (b"\0", b"ab", b"\xff"):
                    plain = None
        elif raw.isalnum():
            plain = '"%s"' % (raw.decode() if len(raw) <= 14 else raw[:14].decode() + "(...)")
            raws = [plain]
    elif k == "float":
        n = it["n"]
        if not aligned and n != 80:
            if got is not None:
                bad("value", got, None)
            return
        if n == 80:
            if aligned:
                want = model.f80(raw, "big" if endian == "big" else "little")
            else:
                want = model.f80(v.to_bytes(10, "big"), "big")
            if not close80(got, want, v):
                return bad("value", got, want and float(want) if want is None or abs(want) < 2 ** 1023 else want)
        else:
            want = (model.f32 if n == 32 else model.f64)(raw, endian)
            if type(got) is not float or struct.pack(">d", got) != struct.pack(">d", want):
                return bad("value", got, want)
        e, m = {32: (8, 23), 64: (11, 52), 80: (15, 64)}[n]
        num = v
        mant = num & ((1 << (63 if n == 80 else m)) - 1)
        exp = (num >> m) & ((1 << e) - 1)
        for name, w in (("negative", num >> (n - 1)), ("exponent", exp), ("mantissa", mant)):
            g = f[name].raw_display
            if g != str(w):
                return bad(name, g, w)
        if f["exponent"].value != exp - (2 ** (e - 1) - 1):
            return bad("exponent", f["exponent"].value, exp)
        res.ev("float subfields")
        return
    elif k == "time":
        want, tol = timevalue(it["t"], v)
        if want is None or got is None:
            if want is not None and want.__class__ is datetime and want > MAXDT - timedelta(days=2):
                return
            if got is not want:
                return bad("value", got, want)
            return
        if type(got) is not type(want) or abs(got - want) > timedelta(microseconds=tol):
            return bad("value", got, want)
        if f.raw_display != str(v):
            return bad("raw_display", f.raw_display, v)
        if isinstance(want, datetime) and f.display != got.replace(microsecond=0).isoformat().replace("T", " "):
            return bad("display", f.display, got)
        res.ev("time values")
        return
    elif k == "msdos":
        if endian == "little":
            parts = [v & 0xffff, v >> 16]
        else:
            parts = [v >> 16, v & 0xffff]
        if it["t"] == "dt":
            parts.reverse()
        t, d = parts
        if endian == "little":
            sec, mi, h = t & 31, t >> 5 & 63, t >> 11
            day, mon, y = d & 31, d >> 5 & 15, d >> 9
        else:
            sec, mi, h = t >> 11, t >> 5 & 63, t & 31
            day, mon, y = d >> 11, d >> 7 & 15, d & 127
        try:
            want = datetime(1980 + y, mon or 1, day or 1, h, mi, 2 * sec)
        except ValueError:
            want = None
        if got != want:
            return bad("value", got, want)
        res.ev("time values")
        return
    elif k in ("string", "cstring", "line", "pascal"):
        if not aligned:
            if got not in (None, ""):
                bad("value", got, None)
            return
        cs = it["opt"].get("charset")
        unit = synth.UTF.get(cs, 1)
        if k == "string":
            content = raw
        elif k == "pascal":
            content = raw[it["w"] // 8:]
        else:
            content = raw[:-unit]
        bom = 0
        if cs in ("UTF-16", "UTF-32"):
            bom = 2 if cs == "UTF-16" else 4
            big = raw.startswith(codecs.BOM_UTF16_BE if bom == 2 else codecs.BOM_UTF32_BE)
            cs = "%s%s%s" % (cs, "-" if bom == 2 else "", "BE" if big else "LE")
            content = raw[bom:] if k == "string" else raw[bom:-bom]
        fcs = f.charset
        if it["opt"].get("charset") is not None and fcs != cs:
            return bad("charset", fcs, cs)
        try:
            want = decode(content, fcs, it["opt"]) if content else ""
        except LookupError:
            return bad("charset", fcs, "a codec")
        if type(got) is not str or got != want:
            return bad("value", got, want)
        wlen = len(content) if cs is None or cs in GenericString.CHARSET_8BIT else len(want)
        if f.length != wlen:
            return bad("length", f.length, wlen)
        if f.content_size != len(content):
            return bad("content_size", f.content_size, len(content))
        off = bom or (it["w"] // 8 if k == "pascal" else 0)
        if f.content_offset != off:
            return bad("content_offset", f.content_offset, off)
        res.ev("string values")
        if cs is None and want and all(ord(c) < 128 for c in want) and content.isascii() and fcs in (
                "UTF-16-LE", "UTF-16-BE", "UTF-32LE", "UTF-32BE"):
            return bad("charset", fcs, "ASCII compatible")
        plain = None
        raws = None
        if want == "":
            plain = "(empty)"
        elif want.isascii() and want.replace(" ", "").isalnum():
            plain = '"%s"' % want if len(want) <= 40 else '"%s(...)"' % want[:40]
    else:
        return
    if it.get("enum"):
        if got in synth.ENUM:
            plain = synth.ENUM[got]
        res.ev("enums")
    if it.get("handler") == "hex":
        plain = "0x%0*x" % (-(-size // 4), got)
    elif it.get("handler") == "fixed":
        plain = "<<%d>>" % got
    if plain is not None:
        if f.display != plain:
            return bad("display", f.display, plain)
        res.ev("displays")
    if raws:
        if f.raw_display not in raws:
            return bad("raw_display", f.raw_display, raws)
    if f.value is not got and f.value != got:
        return bad("second value", f.value, got)
    res.seen(k, it.get("n"), it.get("t"), endian, addr % 16, size, got if size < 400 else None)


def make_stream(rng, data):
    r = rng.randrange(5)
    if r < 2:
        return StringInputStream(data), "string"
    if r == 2:
        return InputIOStream(io.BytesIO(data)), "io"
    if r == 3:
        pre = rng.randbytes(rng.randint(0, 9))
        big = StringInputStream(pre + data + rng.randbytes(rng.randint(0, 9)))
        return InputSubStream(big, 8 * len(pre), 8 * len(data)), "sub"
    return InputIOStream(io.BufferedReader(io.BytesIO(data), 16), size=8 * len(data)), "buffered"


def check_program(res, rng, data, spec, label):
    stream, kind = make_stream(rng, data)
    root = synth.SynthParser(stream, spec) if rng.random() < .8 else synth.RawParser(stream, spec)
    if rng.random() < .3:
        sources.touch(rng, root, 5)
    for path, it, addr, size, endian in synth.layout(data, spec):
        if it["k"] in ("set", "seekset", "link", "static", "vector", "words"):
            continue
        try:
            f = root[path]
        except KeyError as err:
            res.fail("lookup", "%s: %s not found: %r" % (label, path, err))
            continue
        if f.absolute_address != addr or f.size != size:
            res.fail("layout", "%s: %s at %d+%d, expected %d+%d" % (
                label, path, f.absolute_address, f.size, addr, size))
            continue
        check_leaf(res, data, f, it, addr, size, endian, "%s %s %s" % (label, kind, path))
    res.ev("stream:" + kind)


SPECIAL = [0, 1, 2, 0x7f, 0x80, 0x81, 0xfe, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x7fffff, 0x800000,
           0x7fffffff, 0x80000000, 0xffffffff, 0x7f800000, 0xff800000, 0x7fc00000, 0x00800000,
           0x007fffff, 0x3f800000, 0x7ff0000000000000, 0xfff0000000000000, 0x000fffffffffffff,
           0x0010000000000000, 0x7fefffffffffffff, 0x3ff0000000000000, 0x7fffffffffffffff,
           0x8000000000000000, 0xffffffffffffffff,
           0x3fff8000000000000000, 0xc0008000000000000000, 0x400ed8a0000000000000 >> 16 << 16,
           0x400dac44000000000000, 0x7fff8000000000000000, 0x43fe8000000000000000, 0, 3155760000,
           2082844800, 116444736000000000, 122192928000000000, 0x01b21dd213814000]


def put_bits(buf, addr, n, v, endian):
    """Write n bits of v at addr (big or little)."""
    for i in range(n):
        if endian == "little":
            p, b = addr + i, v >> i & 1
            byte, sh = p // 8, p % 8
        else:
            p, b = addr + i, v >> (n - 1 - i) & 1
            byte, sh = p // 8, 7 - p % 8
        buf[byte] = buf[byte] & ~(1 << sh) | b << sh


def special(res, rng):
    """One field with a chosen bit pattern at a chosen bit offset."""
    endian = rng.choice(("big", "little"))
    r = rng.randrange(9)
    pre = rng.choice((0, 0, 8, 16, 24, 1, 3, 7, 12))
    opt = {}
    if r < 2:
        n = rng.choice((8, 16, 24, 32, 64))
        it = {"k": rng.choice(("uint", "sint")), "n": n}
    elif r == 2:
        n = rng.choice((8, 9, 13, 31, 33, 48, 63, 65, 127, 255, 256, 257, 1000))
        it = {"k": rng.choice(("gint", "bits")), "n": n, "signed": rng.random() < .7}
    elif r in (3, 4):
        n = rng.choice((32, 64, 80))
        it = {"k": "float", "n": n}
        pre = pre & ~7
        if n == 80 and rng.random() < .3:
            pre += rng.randint(1, 7)
    elif r == 5:
        t = rng.choice(sorted(synth.TIME))
        n = synth.TIME[t][1]
        it = {"k": "time", "t": t, "n": n}
    elif r == 6:
        n = 32
        it = {"k": "msdos", "t": rng.choice(("td", "dt")), "n": 32}
    elif r == 7:
        n = 8
        it = {"k": "char", "n": 8}
    else:
        # strings with special content
        cs = rng.choice([None, None, "UTF-16", "UTF-32"] + synth.CHARSETS8 + list(synth.UTF))
        text = "".join(rng.choice("abcXYZ  \t\0éà€жȀĀ\n中😀\"\\'") for _ in range(rng.randint(0, 30)))
        enc = cs or rng.choice(("ASCII", "UTF-8", "ISO-8859-1", "UTF-16-LE", "UTF-16-BE"))
        raw = text.encode(enc, "replace")
        kind = rng.choice(("string", "pascal", "cstring", "line"))
        unit = synth.UTF.get(cs, 2 if cs == "UTF-16" else 4 if cs == "UTF-32" else 1)
        it = {"k": kind, "opt": synth._strip_opts(rng, cs)}
        if kind == "string":
            if not raw:
                raw = b"x" * unit
                if cs in ("UTF-16", "UTF-32"):
                    raw = "x".encode(cs)
            it["n"] = len(raw)
        elif kind == "pascal":
            if cs in ("UTF-16", "UTF-32"):
                return special(res, rng)
            it["w"] = rng.choice((8, 16, 32))
            raw = len(raw).to_bytes(it["w"] // 8, endian) + raw
        else:
            if cs in ("UTF-16", "UTF-32") and (kind == "line" or not text):
                return special(res, rng)
            ch = "\0" if kind == "cstring" else "\n"
            raw = text.replace(ch, "").encode(enc, "replace")
            if cs and unit > 1:
                e = enc if cs not in ("UTF-16", "UTF-32") else enc + "LE"
                raw += ch.encode(e)
            else:
                raw = raw.replace(ch.encode(), b"") + ch.encode()
        pre &= ~7
        data = rng.randbytes(pre // 8) + raw + rng.randbytes(3)
        size = 8 * len(raw)
        it["name"] = "f"
        opt = {"k": "string"}
        n = size
    if not opt:
        v = rng.choice(SPECIAL) + rng.choice((0, 0, 0, 1, -1)) if rng.random() < .7 else rng.getrandbits(n)
        if r == 6 and rng.random() < .8:
            # a date near the limits
            y, mo, d = rng.choice((0, 1, 40, 127)), rng.choice((0, 1, 2, 6, 12, 13, 15)), rng.choice((0, 1, 28, 29, 30, 31))
            h, mi, s = rng.choice((0, 12, 23, 24)), rng.choice((0, 59, 60)), rng.choice((0, 29, 30))
            tt, dd = s | mi << 5 | h << 11, d | mo << 5 | y << 9
            v = (tt | dd << 16) if it["t"] == "td" else (dd | tt << 16)
        v &= (1 << n) - 1
        size = n
        buf = bytearray(rng.randbytes((pre + n + 7) // 8 + 4))
        put_bits(buf, pre, n, v, endian)
        data = bytes(buf)
        it["name"] = "f"
        if it["k"] in ("uint", "bits") or (it["k"] == "gint" and not it["signed"]):
            h = rng.random()
            if h < .2:
                it["handler"] = "hex"
            elif h < .3:
                it["handler"] = "fixed"
            elif h < .5:
                it["enum"] = True
    items = []
    if pre:
        items.append({"k": "bits", "n": pre, "name": "pre"})
    items.append(it)
    spec = {"endian": endian, "items": items}
    stream, kind = make_stream(rng, data)
    root = synth.RawParser(stream, spec)
    f = root["f"]
    if f.size != size or f.absolute_address != pre:
        res.fail("layout:" + it["k"], "%r at %d+%d, expected %d+%d (%r)" % (
            it, f.absolute_address, f.size, pre, size, data[:60]))
        return
    if it.get("handler") == "hex":
        textHandler(f, hexadecimal)
    elif it.get("handler") == "fixed":
        textHandler(f, lambda g: "<<%d>>" % g.value)
    elif rng.random() < .05 and it["k"] == "uint":
        filesizeHandler(f)
        it["k"] = "uint"
        if f.value != model.bits(data, pre, size, endian):
            res.fail("filesize:value", "value changed by filesizeHandler")
        return
    check_leaf(res, data, f, it, pre, size, endian, "special %s" % kind)
    res.ev("special fields")


ORPHANS = [(Bit, (), {"k": "bit"}, 1), (Float32, (), {"k": "float", "n": 32}, 32),
           (Float64, (), {"k": "float", "n": 64}, 64), (Float80, (), {"k": "float", "n": 80}, 80),
           (Character, (), {"k": "char"}, 8)]
ORPHANS += [(c, (), {"k": "uint"}, n) for n, c in synth.UINT.items()]
ORPHANS += [(c, (), {"k": "sint"}, n) for n, c in synth.SINT.items()]
ORPHANS += [(c, (), {"k": "time", "t": t}, n) for t, (c, n) in synth.TIME.items()]
ORPHANS += [(c, (), {"k": "msdos", "t": t}, 32) for t, c in synth.MSDOS.items()]


def orphans(res, rng, data, root, addrs=None):
    """Fields created anywhere, out of the tree."""
    sets = [root]
    for f in root:
        if f.is_field_set:
            sets.append(f)
        if len(sets) > 6:
            break
    for _ in range(12):
        fs = rng.choice(sets)
        if rng.random() < .3:
            n = rng.randint(1, 20)
            if rng.random() < .5:
                cls, args, it, size = Bits, (n,), {"k": "bits"}, n
            elif rng.random() < .5:
                cls, args, it, size = Bytes, (n,), {"k": "bytes"}, 8 * n
            else:
                cls, args, it, size = String, (n,), {"k": "string", "opt": {}}, 8 * n
        else:
            cls, args, it, size = rng.choice(ORPHANS)
        endian = NAMES[fs.endian]
        if endian == "middle" and it["k"] == "float":
            continue
        addr = rng.randrange(8 * len(data))
        if rng.random() < .6 or it["k"] in ("string", "float", "bytes"):
            addr &= ~7
        end = addr + size
        if endian == "middle":
            end = -(-end // 16) * 16
        if end > 8 * len(data) or addr < fs.absolute_address:
            continue
        f = createOrphanField(fs, addr - fs.absolute_address, cls, "orphan", *args)
        if f.absolute_address != addr or f.size != size:
            res.fail("orphan:place", "orphan %s at %d+%d, expected %d+%d" % (
                cls.__name__, f.absolute_address, f.size, addr, size))
            continue
        check_leaf(res, data, f, it, addr, size, endian, "orphan %s" % cls.__name__)
        res.ev("orphans")


STOCK = (Bits.createValue, Bit.createValue, GenericInteger.createValue, RawBytes.createValue,
         Character.createValue, RawBits.createValue, GenericString.createValue)


def real_tree(res, rng, src):
    root = src.open()
    if root is None:
        return
    data = src.data
    n = 0
    kinds = set()
    for fs, children in sources.all_sets(root, rng, 150):
        if len(children) > 400:
            children = children[:200] + children[-100:]
        for f in children:
            if f.is_field_set or "createValue" in f.__dict__:
                continue
            cv = type(f).createValue
            if cv not in STOCK or f._parent.stream is not root.stream:
                continue
            addr, size = f.absolute_address, f.size
            endian = NAMES.get(f._parent.endian)
            if endian is None or not size or addr + size > 8 * len(data) or size > 1 << 20:
                continue
            if endian == "middle" and -(-(addr + size) // 16) * 16 > 8 * len(data):
                continue
            if cv is GenericString.createValue:
                if addr % 8 or size % 8:
                    continue
                opt = {"strip": f._strip, "truncate": f._truncate}
                raw = data[addr // 8:(addr + size) // 8]
                content = raw[f.content_offset:f.content_offset + f.content_size]
                want = decode(content, f.charset, opt) if content else ""
                if size < 8 * f.content_size:
                    continue        # truncated by autofix
                got = f.value
                k = "string"
            elif cv is GenericInteger.createValue:
                want = model.bits(data, addr, size, endian)
                if f.signed:
                    want = model.signed(want, size)
                got = f.value
                k = "int"
            elif cv is RawBytes.createValue:
                if addr % 8:
                    continue
                want = data[addr // 8:(addr + size) // 8]
                if size % 8:
                    continue
                got = f.value
                k = "bytes"
            elif cv is Character.createValue:
                if size != 8:
                    continue
                want = chr(model.bits(data, addr, 8, endian))
                got = f.value
                k = "char"
            elif cv is Bit.createValue:
                if size != 1:
                    continue
                want = model.bits(data, addr, 1, endian) == 1
                got = f.value
                k = "bit"
            else:
                want = model.bits(data, addr, size, endian)
                got = f.value
                k = "bits"
            res.evals += 1
            n += 1
            kinds.add((type(root).__name__, type(fs).__name__, f.name, k))
            if got != want or (type(got) is not type(want)):
                res.fail("real:%s:%s" % (k, type(f).__name__), "%s %s (%s) is %r, expected %r" % (
                    src.label, f.path, type(f).__name__, got, want))
        if n > 3000:
            break
    for kk in kinds:
        res.seen("real", *kk)
    res.ev("real leaves", n)


def case(seed):
    rng = rng_for(PID, SEED, seed)
    res = Result()
    m = seed % 40
    if m == 0:
        names = corpus.names()
        real_tree(res, rng, sources.corpus_src(names[(seed // 40) % len(names)], 1 << 18))
    elif m == 1:
        real_tree(res, rng, sources.hostile_src(rng))
    elif m < 22:
        for _ in range(6):
            special(res, rng)
    else:
        data, spec = synth.generate(rng, True)
        check_program(res, rng, data, spec, "program")
        if m % 4 == 0:
            root = synth.RawParser(make_stream(rng, data)[0], spec)
            orphans(res, rng, data, root)
    return res


def main():
    c = check.Check(PID, "one leaf field (type, size, bit address modulo 16, byte order, value)",
                    required=("special fields", "orphans", "real leaves", "float subfields", "enums",
                              "time values", "string values", "displays", "stream:sub", "stream:io"))
    c.assumptions = ["byte strings longer than the display limits are compared by value only",
                     "timestamps are compared within the resolution of their conversion (C16)"]
    c.run(case, range(c.n(40000, 1000000)), timeout=120, deadline=c.deadline(60, 840),
          on_timeout=c.note_timeout)
    return c.finish()


if __name__ == "__main__":
    raise SystemExit(main())
