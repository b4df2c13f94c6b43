"""C16: conversions and text helpers against independent arithmetic."""
import bisect
import math
import re
import stat
import unicodedata
from datetime import datetime, timedelta
from fractions import Fraction

from vlib import env, check
from vlib.check import Result, rng_for
from hachoir.core import bits, tools, i18n, text_handler
from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN, MIDDLE_ENDIAN
from hachoir.stream import StringInputStream
from hachoir.stream.input_helper import guessStreamCharset

PID = "C16"
PY = {BIG_ENDIAN: "big", LITTLE_ENDIAN: "little"}


def big(rng, maxbits=70):
    n = rng.randint(0, maxbits)
    k = rng.randrange(4)
    if k == 0:
        return max(0, (1 << n) + rng.randint(-2, 2))
    if k == 1:
        return max(0, 10 ** rng.randint(0, 20) * rng.randint(1, 9) + rng.randint(-1, 1))
    return rng.getrandbits(n) if n else 0


def t_bits(rng, ex, res):
    v = big(rng, 200)
    n = rng.choice((0, 1, 2, 3, 4, 8, 16, 25, (v.bit_length() + 7) // 8))
    e = rng.choice((BIG_ENDIAN, LITTLE_ENDIAN))
    if v or n:
        if n:
            v &= (1 << 8 * n) - 1
            raw = bits.long2raw(v, e, n)
            ex(raw == v.to_bytes(n, PY[e]), "long2raw", lambda: "long2raw(%r,%s,%r)=%r" % (v, e, n, raw))
        else:
            raw = bits.long2raw(v, e)
            ex(raw == v.to_bytes(max(1, (v.bit_length() + 7) // 8), PY[e]), "long2raw",
               lambda: "long2raw(%r,%s)=%r" % (v, e, raw))
        back = bits.str2long(raw, e)
        ex(back == v, "str2long", lambda: "str2long(%r,%s)=%r" % (raw, e, back))
    data = rng.randbytes(2 * rng.randint(1, 9))
    sw = bytes(b for i in range(0, len(data), 2) for b in (data[i + 1], data[i]))
    ex(bits.strswapmid(data) == sw, "strswapmid", lambda: repr(data))
    ex(bits.str2long(data, MIDDLE_ENDIAN) == int.from_bytes(sw, "big"), "str2long-middle", lambda: repr(data))
    w = rng.getrandbits(16)
    ex(bits.swap16(w) == int.from_bytes(w.to_bytes(2, "big"), "little"), "swap16", lambda: "%x" % w)
    w = rng.getrandbits(32)
    ex(bits.swap32(w) == int.from_bytes(w.to_bytes(4, "big"), "little"), "swap32", lambda: "%x" % w)
    v = big(rng, 300)
    ex(bits.countBits(v) == max(1, v.bit_length()), "countBits", lambda: "countBits(%d)=%d" % (v, bits.countBits(v)))
    b = rng.randrange(256)
    s = format(b, "08b")
    ex(bits.byte2bin(b) == s, "byte2bin", lambda: repr(b))
    ex(bits.byte2bin(b, False) == s[::-1], "byte2bin", lambda: repr(b))
    text = "".join(chr(rng.randrange(256)) for _ in range(rng.randint(0, 5)))
    ex(bits.str2bin(text) == " ".join(format(ord(c), "08b") for c in text), "str2bin", lambda: repr(text))
    ex(bits.str2bin(text, False) == " ".join(format(ord(c), "08b")[::-1] for c in text), "str2bin", lambda: repr(text))
    size = rng.randint(1, 70)
    v = rng.getrandbits(size)
    classic = rng.random() < .5
    out = bits.long2bin(size, v, e, classic)
    lsb = "".join(str(v >> i & 1) for i in range(size))
    if e == LITTLE_ENDIAN:
        lsb = lsb[::-1]
    groups = [lsb[i:i + 8] for i in range(0, size, 8)]
    if classic:
        groups = [g[::-1] for g in groups]
    ex(out == " ".join(groups), "long2bin", lambda: "long2bin(%d,%d,%s,%s)=%r" % (size, v, e, classic, out))
    if not classic:
        other = LITTLE_ENDIAN if e == BIG_ENDIAN else BIG_ENDIAN
        ex(bits.bin2long(out, other) == v, "bin2long-inverse", lambda: repr((out, v)))
    t = "".join(rng.choice("01 ") for _ in range(rng.randint(1, 40))) + rng.choice("01")
    d = t.replace(" ", "")
    ex(bits.bin2long(t, BIG_ENDIAN) == int(d, 2), "bin2long", lambda: repr(t))
    ex(bits.bin2long(t, LITTLE_ENDIAN) == int(d[::-1], 2), "bin2long", lambda: repr(t))
    data = rng.randbytes(rng.randint(0, 6))
    glue, prefix = rng.choice(("", " ", ":")), rng.choice(("", "0x"))
    exp = prefix + (glue if prefix else "") + glue.join("%02X" % c for c in data)
    if data:
        ex(bits.str2hex(data, prefix=prefix, glue=glue) == exp, "str2hex", lambda: repr((data, prefix, glue)))
    res.ev("bits")
    return v, e, size, t, data


class F:
    def __init__(self, value, size):
        self.value = value
        self.size = size


def t_align(rng, ex, res):
    v, a = big(rng, 40), rng.choice((1, 2, 3, 4, 7, 8, 16, 512, 4096, rng.randint(1, 10 ** 6)))
    p, al = tools.paddingSize(v, a), tools.alignValue(v, a)
    ex(0 <= p < a and (v + p) % a == 0, "paddingSize", lambda: repr((v, a, p)))
    ex(al == -(-v // a) * a, "alignValue", lambda: repr((v, a, al)))
    n = rng.choice((1, 3, 4, 7, 8, 12, 16, 31, 32, 64))
    x = rng.getrandbits(n)
    ex(text_handler.hexadecimal(F(x, n)) == "0x" + format(x, "0%dx" % -(-n // 4)), "hexadecimal", lambda: repr((x, n)))
    seq = sorted(rng.choices(range(30), k=rng.randint(0, 12)))
    y = rng.randrange(30)
    ex(tools.lowerBound(seq, lambda q: q <= y) == bisect.bisect_right(seq, y), "lowerBound", lambda: repr((seq, y)))
    ex(tools.lowerBound(seq, lambda q: q < y) == bisect.bisect_left(seq, y), "lowerBound", lambda: repr((seq, y)))
    uniq = sorted(set(seq))
    i = tools.binarySearch(uniq, lambda q: y - q)
    ex((i is None and y not in uniq) or (i is not None and uniq[i] == y), "binarySearch", lambda: repr((uniq, y, i)))
    mode = rng.choice((rng.getrandbits(12), rng.choice((stat.S_IFREG, stat.S_IFDIR, stat.S_IFLNK, stat.S_IFBLK,
                                                        stat.S_IFCHR, stat.S_IFIFO, stat.S_IFSOCK)) | rng.getrandbits(12)))
    t = stat.filemode(mode)
    if not stat.S_IFMT(mode):
        t = "-" + t[1:]
    got = tools.humanUnixAttributes(mode)
    ex(got == "%s (%o)" % (t, mode), "humanUnixAttributes", lambda: "%o -> %s, expected %s" % (mode, got, t))
    d = {k: (rng.random(), k * 2) for k in range(rng.randint(0, 4))}
    ex(tools.createDict(d, 1) == {k: k * 2 for k in d}, "createDict", lambda: repr(d))
    res.ev("align")
    return v, a, x, n, seq, mode


UNITS = {"ms": 1000, "sec": 10 ** 6, "min": 60 * 10 ** 6, "hours": 3600 * 10 ** 6,
         "days": 86400 * 10 ** 6, "years": 365 * 86400 * 10 ** 6}
ORDER = ["years", "days", "hours", "min", "sec", "ms"]
LIMIT = {"days": 365, "hours": 24, "min": 60, "sec": 60, "ms": 1000}


def check_duration(text, us):
    """Is `text` a right description of `us` microseconds?"""
    if us < 1000:
        return text == "0 ms"
    words = text.split(" ")
    if len(words) % 2 or len(words) > 6:
        return False
    total, last = 0, -1
    for num, unit in zip(words[::2], words[1::2]):
        if unit not in UNITS or not num.isdigit():
            return False
        k = ORDER.index(unit)
        if k <= last or not int(num) or (unit in LIMIT and int(num) >= LIMIT[unit]):
            return False
        last = k
        total += int(num) * UNITS[unit]
    rest = us - total
    prec = UNITS[ORDER[last]] if len(words) == 6 else 1000
    return 0 <= rest < prec


def check_scaled(text, value, base, units, plain, first):
    """`first`: smallest value written with a unit."""
    num, unit = text.split(" ")
    if value < first:
        return unit == plain and num == str(value)
    if unit not in units:
        return False
    k = units.index(unit) + 1
    scale = base ** k
    x = Fraction(num)
    last = k == len(units)
    if x * scale > 2 ** 60:
        tol = Fraction(scale)
    elif last and "." not in num:
        tol = Fraction(scale)
    else:
        tol = Fraction(scale, 20) + Fraction(value, 10 ** 14)
    if abs(x * scale - value) > tol:
        return False
    # the unit is the natural one
    return (last or x <= base) and (x >= 1 or value < base)


def t_human(rng, ex, res):
    # durations
    us = rng.choice((big(rng, 62), rng.randrange(10 ** 7), rng.randrange(90000 * 10 ** 6),
                     sum(rng.choice((0, 0, 1, rng.randrange(1, 60))) * u for u in UNITS.values())))
    us = min(us, 10 ** 20 // 2)
    td = timedelta(microseconds=us)
    t = tools.humanDuration(td)
    ex(check_duration(t, us), "humanDuration", lambda: "%r -> %r" % (td, t))
    t2 = tools.humanDuration(us // 1000)
    ex(check_duration(t2, us // 1000 * 1000), "humanDuration", lambda: "%d ms -> %r" % (us // 1000, t2))
    ns = rng.choice((rng.randrange(10 ** 4), rng.randrange(10 ** 7), rng.randrange(10 ** 10), rng.randrange(10 ** 14)))
    t3 = tools.humanDurationNanosec(ns)
    if ns < 1000:
        ok = t3 == "%d nsec" % ns
    elif ns < 10 ** 9:
        num, unit = t3.split(" ")
        scale = {"usec": 1000, "ms": 10 ** 6}.get(unit, 0)
        ok = scale and (scale == 1000) == (ns < 10 ** 6) and \
            abs(Fraction(num) * scale - ns) <= Fraction(scale, 100)
    else:
        ok = check_duration(t3, ns // 10 ** 6 * 1000)
    ex(ok, "humanDurationNanosec", lambda: "%d -> %r" % (ns, t3))
    v = big(rng, 58)
    t = tools.humanFilesize(v)
    ex(check_scaled(t, v, 1024, ["KB", "MB", "GB", "TB"], "bytes", 10000), "humanFilesize", lambda: "%d -> %s" % (v, t))
    w = big(rng, 58)
    t4 = tools.humanBitSize(w)
    ex(check_scaled(t4, w, 1000, ["Kbit", "Mbit", "Gbit", "Tbit"], "bits", 1000), "humanBitSize", lambda: "%d -> %s" % (w, t4))
    ex(tools.humanBitRate(w) == t4 + "/sec", "humanBitRate", lambda: repr(w))
    x = big(rng, 50)
    t5 = tools.humanFrequency(x)
    ex(check_scaled(t5, x, 1000, ["kHz", "MHz", "GHz", "THz"], "Hz", 1000), "humanFrequency", lambda: "%d -> %s" % (x, t5))
    res.ev("human")
    return us, ns, v, w, x


def t_time(rng, ex, res):
    def near(a, b, tol_us):
        return abs((a - b) // timedelta(microseconds=1)) <= tol_us

    def refuse(fn, v, kinds):
        try:
            r = fn(v)
        except kinds:
            return True
        except Exception:
            return False
        return r is None
    v = rng.choice((rng.randrange(2 ** 31), 0, 2 ** 31 - 1, rng.getrandbits(31), 86400 * rng.randrange(24855)))
    r = tools.timestampUNIX(v)
    ex(r == datetime(1970, 1, 1) + timedelta(seconds=v), "timestampUNIX", lambda: "%d -> %r" % (v, r))
    ex(int((r - datetime(1970, 1, 1)).total_seconds()) == v, "timestampUNIX", lambda: "%d -> %r" % (v, r))
    for bad in (-1, 2 ** 31, 2 ** 31 + rng.getrandbits(40), -rng.getrandbits(40) - 1):
        ex(refuse(tools.timestampUNIX, bad, ValueError), "timestampUNIX-range", lambda: repr(bad))
    f = v + rng.randrange(1000) / 1000
    if f <= 2147483647:
        ex(near(tools.timestampUNIX(f), datetime(1970, 1, 1) + timedelta(microseconds=round(f * 10 ** 6)), 1),
           "timestampUNIX-float", lambda: repr(f))
    m = rng.choice((rng.getrandbits(32), 0, 2 ** 32 - 1, 2082844800))
    r2 = tools.timestampMac32(m)
    ex(r2 == datetime(1904, 1, 1) + timedelta(seconds=m), "timestampMac32", lambda: "%d -> %r" % (m, r2))
    for bad in (-1, 2 ** 32, 2 ** 32 + rng.getrandbits(30)):
        ex(refuse(tools.timestampMac32, bad, ValueError), "timestampMac32-range", lambda: repr(bad))
    w = rng.choice((rng.randrange(265 * 10 ** 15 * 9), rng.getrandbits(57), rng.getrandbits(rng.randint(1, 61)), 0,
                    10 * rng.getrandbits(54) + rng.randrange(10)))
    exp_us = w // 10
    try:
        exp = datetime(1601, 1, 1) + timedelta(microseconds=exp_us)
    except OverflowError:
        exp = None
    if exp is None:
        if w > 10 * (exp_us or 1) - 20 and w // 10 - 10 > (datetime.max - datetime(1601, 1, 1)) // timedelta(microseconds=1):
            ex(refuse(tools.timestampWin64, w, ValueError), "timestampWin64-range", lambda: repr(w))
    else:
        r3 = tools.timestampWin64(w)
        ex(near(r3, exp, 1), "timestampWin64", lambda: "%d -> %r expected %r" % (w, r3, exp))
    ex(refuse(tools.timestampWin64, -1 - w, ValueError), "timestampWin64-neg", lambda: repr(w))
    q = rng.choice((rng.getrandbits(64), rng.getrandbits(rng.randint(1, 64)), 10 * rng.getrandbits(50)))
    r4 = tools.durationWin64(q)
    ex(near(r4, timedelta(microseconds=q // 10), 1), "durationWin64", lambda: "%d -> %r" % (q, r4))
    ex(refuse(tools.durationWin64, -1 - q, ValueError), "durationWin64-neg", lambda: repr(q))
    q2 = rng.getrandbits(rng.randint(1, 55))
    r5 = tools.durationMillisWin64(q2)
    ex(r5 == timedelta(microseconds=1000 * q2), "durationMillisWin64", lambda: "%d -> %r" % (q2, r5))
    ex(refuse(tools.durationMillisWin64, -1 - q2, ValueError), "durationMillisWin64-neg", lambda: repr(q2))
    u = rng.getrandbits(rng.choice((10, 40, 53, 56, 57, 60)))
    exp = datetime(1582, 10, 15) + timedelta(microseconds=u // 10)
    r6 = tools.timestampUUID60(u)
    if not near(r6, exp, 1) and u >= 1 << 56 and near(r6, exp, 16):
        ex(False, "uuid60-float-rounding", lambda: "%d -> %r expected %r" % (u, r6, exp))
    else:
        ex(near(r6, exp, 1), "timestampUUID60", lambda: "%d -> %r expected %r" % (u, r6, exp))
    ex(refuse(tools.timestampUUID60, -1 - u, ValueError), "timestampUUID60-neg", lambda: repr(u))
    ms = rng.getrandbits(rng.randint(1, 60))
    td = timedelta(microseconds=ms)
    sec = tools.timedelta2seconds(td)
    ex(math.isclose(sec, ms / 10 ** 6, rel_tol=1e-12), "timedelta2seconds", lambda: repr((ms, sec)))
    dt = datetime(rng.randint(1, 9999), rng.randint(1, 12), rng.randint(1, 28), rng.randrange(24), rng.randrange(60),
                  rng.randrange(60), rng.choice((0, rng.randrange(10 ** 6))))
    base = "%04d-%02d-%02d %02d:%02d:%02d" % (dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second)
    ex(tools.humanDatetime(dt) == base, "humanDatetime", lambda: repr(dt))
    full = base + (".%06d" % dt.microsecond if dt.microsecond else "")
    ex(tools.humanDatetime(dt, False) == full, "humanDatetime", lambda: repr(dt))
    res.ev("time")
    return v, m, w, q, q2, u, dt


POOL = [chr(i) for i in range(32)] + ["\x7f", "'", '"', " ", "a", "Z", "0", "1", "7", "8", "9", "x", "u", "é", "\xa0", "€",
                                      "\u0100", "Ω", "漢", "\U0001f600", "\ud800", "\xff"]
ESC = {"n": "\n", "r": "\r", "t": "\t", "a": "\a", "b": "\b"}


def unescape(text):
    out = []
    i = 0
    while i < len(text):
        c = text[i]
        if c != "\\":
            out.append(c)
            i += 1
            continue
        m = re.compile(r"\\(x[0-9a-f]{2}|u[0-9a-f]{4}|U[0-9a-f]{8}|[0-7nrtab'\"])").match(text, i)
        if not m:
            return None
        k = m.group(1)
        if k[0] in "xuU":
            out.append(chr(int(k[1:], 16)))
        elif k in ESC:
            out.append(ESC[k])
        elif k in "01234567":
            out.append(chr(int(k)))
        else:
            out.append(k)
        i = m.end()
    return "".join(out)


def ascii_control(t):
    return any(ord(c) < 32 or ord(c) == 127 for c in t)


def t_text(rng, ex, res):
    n = rng.choice((0, 1, 2, 3, 8, 30))
    text = "".join(rng.choices(POOL, k=n))
    if rng.random() < .2:
        text = "".join(chr(rng.randrange(1, 0x3000)) for _ in range(n)).replace("\\", "")
    back = rng.random() < .15
    if back:
        text += "\\" + rng.choice(("x01", "0", "n", "\\", ""))
    as_bytes = rng.random() < .4
    src = text
    if as_bytes:
        src = bytes(rng.choice((rng.randrange(256), rng.randrange(8), rng.choice(b"01789")))
                    for _ in range(n)).replace(b"\\", b"")
        text = src.decode("latin-1")
        back = False
    charset = rng.choice(("ASCII", "UTF-8", "ISO-8859-1", "latin1", "cp1252", "ISO-8859-15"))
    quote = rng.choice((None, None, "'", '"'))
    smart = rng.random() < .7
    out = tools.makePrintable(src, charset, quote=quote, smart=smart)
    desc = lambda: "makePrintable(%r,%r,%r,%r)=%r" % (src, charset, quote, smart, out)  # noqa
    ex(isinstance(out, str) and not ascii_control(out), "printable-control", desc)
    try:
        out.encode("ASCII" if as_bytes else charset)
        ok = True
    except UnicodeEncodeError:
        ok = False
    ex(ok, "printable-charset", desc)
    body = out
    if quote:
        if not src:
            ex(out == "(empty)", "printable-empty", desc)
            body = ""
        else:
            ex(out[0] == quote == out[-1] and len(out) >= 2, "printable-quote", desc)
            body = out[1:-1]
            ex(not re.search(r"(?<!\\)" + quote, body), "printable-quote", desc)
    if not back:
        ex(unescape(body) == text, "printable-lost", desc)
        # printable characters which the charset has are not escaped
        cs = "ASCII" if as_bytes else charset
        keep = [c for c in text if c.isprintable() and encodable(c, cs) and c != quote]
        rest = [c for c in re.sub(r"\\(x..|u....|U........|.)", "", body)]
        ex([c for c in rest if c.isprintable()] == keep, "printable-escaped", desc)
    u = tools.makeUnicode(src)
    d2 = lambda: "makeUnicode(%r)=%r" % (src, u)  # noqa
    ex(not ascii_control(u), "unicode-control", d2)
    if not back:
        ex(unescape(u) == text, "unicode-lost", d2)
    num = rng.choice((5, -1, 2.5, None, (1,)))
    ex(tools.makeUnicode(num) == str(num), "unicode-object", lambda: repr(num))
    t = "".join(rng.choices("ab\r\n \t", k=rng.randint(0, 15)))
    ex(tools.normalizeNewline(t) == re.sub("[\r\n]+", "\n", t), "normalizeNewline", lambda: repr(t))
    # charset guess
    k = rng.randrange(6)
    word = "".join(rng.choices("abc DEF\n", k=rng.randint(0, 20)))
    if k == 0:
        raw, exp = word.encode(), "ASCII"
    elif k == 1:
        raw, exp = (word + rng.choice("éΩ漢€😀")).encode("utf-8"), "UTF-8"
    elif k == 2:
        bom, exp = rng.choice(((b"\xef\xbb\xbf", "UTF-8"), (b"\xff\xfe", "UTF-16-LE"), (b"\xfe\xff", "UTF-16-BE")))
        raw = bom + rng.randbytes(rng.randint(0, 9))
    elif k == 3:
        raw, exp = (word + "".join(rng.choices("éàèçê", k=3)) + " x").encode("ISO-8859-1"), "ISO-8859-1"
    elif k == 4:
        raw, exp = rng.randbytes(rng.randint(1, 30)), 0
    else:
        raw, exp = (word + "é€ ").encode("ISO-8859-15"), "ISO-8859-15"
    got = i18n.guessBytesCharset(raw, "dflt")
    if exp:
        ex(got == exp, "guessCharset", lambda: "%r -> %r expected %r" % (raw, got, exp))
    elif got != "dflt":
        bom = raw.startswith((b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff"))
        try:
            raw.decode(got)
            ok = True
        except UnicodeDecodeError:
            ok = bom
        ex(ok, "guessCharset-decodes", lambda: "%r -> %r" % (raw, got))
    if raw:
        st = StringInputStream(raw)
        g2 = guessStreamCharset(st, 0, 8 * len(raw), "dflt")
        ex(g2 == got, "guessStreamCharset", lambda: "%r -> %r expected %r" % (raw, g2, got))
    res.ev("text")
    return src, charset, quote, smart, raw


def encodable(c, cs):
    try:
        c.encode(cs)
        return True
    except UnicodeEncodeError:
        return False


TESTS = (t_bits, t_align, t_human, t_time, t_text)


def case(seed):
    res = Result()
    for fn in TESTS:
        rng = rng_for(PID, env.SEED, seed, fn.__name__)
        for i in range(60):
            try:
                drawn = fn(rng, res.expect, res)
                if i < 20:
                    res.seen(fn.__name__, drawn)
                if i == 7 and seed % 100 == 0:
                    res.samples.append("%s: %r" % (fn.__name__, drawn))
            except Exception as err:
                import traceback
                tb = traceback.extract_tb(err.__traceback__)
                res.fail("exception:%s:%s" % (fn.__name__, type(err).__name__),
                         "%s: %s at %s" % (type(err).__name__, err, tb[-1]))
    return res


def main():
    c = check.Check(PID, "random and boundary values through every conversion helper; a draw is one call of "
                    "a test function; a third of the draws is counted, distinct by the values drawn",
                    required=("bits", "align", "human", "time", "text"))
    c.run(case, range(c.n(4000, 60000)), timeout=60, deadline=c.deadline(45, 600))
    return c.finish()


if __name__ == "__main__":
    raise SystemExit(main())
