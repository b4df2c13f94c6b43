"""C06: every input stream is the same faithful, bounded view of its bytes.

One content, many ways to make a stream of it; random interleaved requests on
the stream, on file objects made from it and on sub-streams of it. The oracle
is the byte string itself."""
import io
import os
import tempfile
import threading
import zlib

from vlib import env, check
from vlib.check import Result, rng_for
from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN, MIDDLE_ENDIAN
from hachoir.field import Parser, RawBytes, RawBits, Fragment, CompressedField, Bytes, UInt8
from hachoir.parser.common.deflate import Deflate
from hachoir.stream import (StringInputStream, InputIOStream, InputSubStream, InputFieldStream,
                            FileInputStream, ConcatStream, StreamError)

PID = "C06"
ENDIANS = (BIG_ENDIAN, LITTLE_ENDIAN, MIDDLE_ENDIAN)


# ---------------------------------------------------------------- oracle

def model_bits(data, addr, n, endian):
    if n == 0:
        return 0
    if endian == MIDDLE_ENDIAN:
        w0, w1 = addr // 16, -(-(addr + n) // 16)
        chunk = data[2 * w0:2 * w1]
        if len(chunk) != 2 * (w1 - w0):
            return None        # the 16-bit words are not all there
        sw = bytearray(chunk)
        sw[0::2], sw[1::2] = chunk[1::2], chunk[0::2]
        v = int.from_bytes(sw, "big")
        return (v >> (16 * w1 - addr - n)) & ((1 << n) - 1)
    b0, b1 = addr // 8, -(-(addr + n) // 8)
    chunk = data[b0:b1]
    if endian == BIG_ENDIAN:
        return (int.from_bytes(chunk, "big") >> (8 * b1 - addr - n)) & ((1 << n) - 1)
    return (int.from_bytes(chunk, "little") >> (addr - 8 * b0)) & ((1 << n) - 1)


# ---------------------------------------------------------------- sources

class ShortReader:
    """Not seekable; returns at most k bytes per call."""

    def __init__(self, data, rng, eager):
        self.data = data
        self.pos = 0
        self.rng = rng
        self.eager = eager

    def read(self, size):
        if not self.eager and size > 1:
            size = self.rng.randint(1, size)
        d = self.data[self.pos:self.pos + size]
        self.pos += len(d)
        return d

    def close(self):
        pass


class Field(Parser):
    endian = BIG_ENDIAN
    PARSER_TAGS = {"id": "c06", "description": "c06", "min_size": 8}

    def __init__(self, stream, before, size, **args):
        self.before = before
        self.datasize = size
        Parser.__init__(self, stream, **args)

    def validate(self):
        return True

    def createFields(self):
        if self.before:
            yield RawBits(self, "before", self.before)
        if self.datasize % 8 or self.before % 8:
            yield RawBits(self, "data", self.datasize)
        else:
            yield RawBytes(self, "data", self.datasize // 8)
        rest = self.size - self.current_size
        if rest:
            yield RawBits(self, "after", rest)


class Frag(Fragment):
    def __init__(self, parent, name, index, head, size):
        self.fargs = (head, size)
        Fragment.__init__(self, parent, name)
        self._getData = lambda: self["payload"]
        first = parent["frag[0]"] if index else self
        nxt = (lambda: parent["frag[%d]" % (index + 1)]) if index + 1 < len(parent.plan) else None
        self.setLinks(first, nxt)

    def createFields(self):
        if self.fargs[0]:
            yield RawBytes(self, "head", self.fargs[0])
        yield Bytes(self, "payload", self.fargs[1])
        yield UInt8(self, "tail")


class Fragmented(Parser):
    endian = BIG_ENDIAN
    PARSER_TAGS = {"id": "c06f", "description": "c06f", "min_size": 8}

    def __init__(self, stream, plan, **args):
        self.plan = plan
        Parser.__init__(self, stream, **args)

    def validate(self):
        return True

    def createFields(self):
        for i, (head, size, gap) in enumerate(self.plan):
            yield Frag(self, "frag[]", i, head, size)
            if gap:
                yield RawBytes(self, "gap[]", gap)


def small_buffers(rng, pipe, n, keep):
    """Shrink the blocks of an InputPipe so that small contents cross them."""
    pipe.buffer_size = rng.choice((2, 4, 6, 9, 12))
    if n > 256 << pipe.buffer_size:
        if rng.random() < .8:
            pipe.buffer_nb_min = 1 << 30
        else:
            keep.append("lossy")    # old blocks may be forgotten: reads may be refused


def pipe_stream(rng, data, keep, raw):
    r, w = os.pipe()

    def writer():
        try:
            pos = 0
            while pos < len(data):
                n = rng2.choice((1, 10, 500, 4096, 70000))
                pos += os.write(w, data[pos:pos + n])
        except OSError:
            pass
        finally:
            os.close(w)
    rng2 = rng_for("pipe", len(data), rng.random())
    t = threading.Thread(target=writer, daemon=True)
    t.start()
    fp = os.fdopen(r, "rb", 0 if raw else -1)
    keep.append(("pipe", fp, t))
    return InputIOStream(fp, source="<pipe>")


def make(rng, data, tmp, keep, depth=0):
    """Return (stream, description). `keep` holds what must stay alive."""
    kinds = ["string", "io", "file", "fileobj", "filerange", "sized", "reader", "pipe",
             "sub", "subend", "bitsub", "field", "fragmented", "concat", "deflate", "zlib"]
    if depth >= 2:
        kinds = kinds[:8]
    kind = rng.choice(kinds)
    n = len(data)
    if kind == "string":
        return StringInputStream(data), kind
    if kind == "io":
        return InputIOStream(io.BytesIO(data)), kind
    if kind in ("file", "fileobj", "filerange"):
        path = os.path.join(tmp, "f%d" % len(keep))
        pre, post = (rng.randbytes(rng.choice((0, 1, 700))), rng.randbytes(rng.choice((0, 3, 700)))) \
            if kind == "filerange" else (b"", b"")
        with open(path, "wb") as fp:
            fp.write(pre + data + post)
        if kind == "filerange":
            if post:
                s = FileInputStream(path, offset=len(pre), size=n)
            else:
                s = FileInputStream(path, offset=len(pre))
        elif kind == "fileobj":
            s = FileInputStream(open(path, "rb"))
        else:
            s = FileInputStream(path)
        keep.append(("close", s.stream if hasattr(s, "stream") else s))
        return s, kind
    if kind == "sized":
        # declared size smaller than what the input holds
        return InputIOStream(io.BytesIO(data + rng.randbytes(rng.choice((1, 50)))), size=8 * n), kind
    if kind == "reader":
        eager = rng.random() < .5
        s = InputIOStream(ShortReader(data, rng, eager))
        if rng.random() < .8 and hasattr(s._input, "buffer_size"):
            small_buffers(rng, s._input, n, keep)
        return s, kind + ("" if eager else "-short")
    if kind == "pipe":
        raw = rng.random() < .5
        return pipe_stream(rng, data, keep, raw), kind + ("-raw" if raw else "")
    pre, post = rng.randbytes(rng.choice((0, 1, 5, 300))), rng.randbytes(rng.choice((0, 1, 5, 300)))
    if kind == "sub":
        s, d = make(rng, pre + data + post, tmp, keep, depth + 1)
        keep.append(s)
        return InputSubStream(s, 8 * len(pre), 8 * n), "sub(%s)" % d
    if kind == "subend":
        s, d = make(rng, pre + data, tmp, keep, depth + 1)
        keep.append(s)
        if s.size is not None and rng.random() < .3:
            return InputSubStream(s, 8 * len(pre), 8 * n + 8 * rng.randint(1, 999)), "subclip(%s)" % d
        return InputSubStream(s, 8 * len(pre)), "subend(%s)" % d
    if kind == "bitsub":
        # content at a bit offset, big endian numbering
        off = rng.randint(1, 7)
        v = int.from_bytes(pre + data + post, "big") << (8 - off)
        v |= rng.getrandbits(8 - off)
        v |= rng.getrandbits(off) << (8 * len(pre + data + post) + 8 - off)
        shifted = v.to_bytes(len(pre + data + post) + 1, "big")
        s, d = make(rng, shifted, tmp, keep, depth + 1)
        keep.append(s)
        return InputSubStream(s, 8 * len(pre) + off, 8 * n), "bitsub(%s)" % d
    if kind == "field":
        s, d = make(rng, pre + data + post, tmp, keep, depth + 1)
        if "bitsub" in d:
            return StringInputStream(data), "string"
        p = Field(s, 8 * len(pre), 8 * n)
        keep.append(p)
        f = p["data"]
        if rng.random() < .5:
            return InputFieldStream(f), "field(%s)" % d
        return f.getSubIStream(), "field2(%s)" % d
    if kind == "fragmented":
        plan = []
        left = n
        raw = b""
        pos = 0
        while left:
            k = rng.choice((1, 2, 3, 10, 100, 4096, left))
            k = min(k, left) if rng.random() < .9 else left
            head, gap = rng.choice((0, 0, 1, 7)), rng.choice((0, 0, 0, 1, 9))
            plan.append((head, k, gap))
            raw += rng.randbytes(head) + data[pos:pos + k] + rng.randbytes(1 + gap)
            pos += k
            left -= k
            if len(plan) > 60:
                head, gap = 0, 0
                plan.append((0, left, 0))
                raw += data[pos:] + b"x"
                if not left:
                    plan.pop()
                    raw = raw[:-1]
                left = 0
        s, d = make(rng, raw, tmp, keep, depth + 1)
        if "bitsub" in d:
            return StringInputStream(data), "string"
        p = Fragmented(s, plan)
        keep.append(p)
        return p["frag[0]"].getSubIStream(), "fragmented(%s)" % d
    if kind == "concat":
        cut = rng.randint(1, n - 1) if n > 1 else 0
        if not cut:
            return StringInputStream(data), "string"
        s, d = make(rng, data[cut:], tmp, keep, depth + 1)
        if "bitsub" in d:
            return StringInputStream(data), "string"
        return ConcatStream((StringInputStream(data[:cut]), s)), "concat(%s)" % d
    # compressed
    if kind == "deflate":
        o = zlib.compressobj(rng.choice((0, 1, 6, 9)), zlib.DEFLATED, -15)
    else:
        o = zlib.compressobj(rng.choice((0, 1, 6, 9)))
    packed = o.compress(data) + o.flush()
    s, d = make(rng, pre + packed + post, tmp, keep, depth + 1)
    if "bitsub" in d:
        return StringInputStream(data), "string"
    p = Field(s, 8 * len(pre), 8 * len(packed))
    keep.append(p)
    f = p["data"]
    Deflate(f, kind == "deflate")
    st = f.getSubIStream()
    if hasattr(st, "_input") and rng.random() < .7 and hasattr(st._input, "buffer_size"):
        small_buffers(rng, st._input, n, keep)
    return st, "%s(%s)" % (kind, d)


def make_content(rng):
    n = rng.choice((1, 2, 3, 8, 17, 63, 64, 65, 300, 300, 2000, 4095, 4096, 4097, 5000, 9000,
                    65535, 65536, 65537, 131072, 140000))
    if n > 10000 and rng.random() < .5:
        n = rng.randint(1, 6000)
    k = rng.randrange(3)
    if k == 0:
        data = rng.randbytes(n)
    elif k == 1:
        data = bytes(rng.choices(b"ab", k=n))
    else:
        unit = rng.randbytes(rng.randint(1, 40))
        data = (unit * (n // len(unit) + 1))[:n]
    return data


def forgotten(lossy, err):
    return lossy and isinstance(err, StreamError) and "Buffers too small" in str(err)


def ops_on(res, rng, s, data, label, nops, fail, aligned=True, lossy=False):
    total = 8 * len(data)
    pipe = s.size is None
    files = []

    def address(limit):
        k = rng.randrange(6)
        if k == 0:
            return max(0, limit - rng.choice((0, 1, 7, 8, 64)))
        if k == 1:
            return min(limit, 8 * rng.choice((0, 1, 4095, 4096, 4097, 65535, 65536, 65537)))
        a = rng.randint(0, limit)
        return a - a % 8 if k < 4 else a

    for _ in range(nops):
        op = rng.randrange(13)
        try:
            if op in (0, 1):
                a = address(total)
                n = rng.choice((1, 2, 3, 7, 8, 9, 16, 17, 32, 64, 100, 1024))
                if op == 1 and rng.random() < .8:
                    n = min(n, total - a)
                e = rng.choice(ENDIANS)
                signed = rng.random() < .4
                inside = a + n <= total
                if not n:
                    continue
                try:
                    v = s.readInteger(a, signed, n, e)
                except StreamError as err:
                    res.ev("bits_refused")
                    res.evals += 1
                    if inside and not forgotten(lossy, err) and not (e == MIDDLE_ENDIAN and (not aligned or model_bits(data, a, n, e) is None)):
                        return fail("bits-refused", "%s: readInteger(%d,%d,%s) refused: %s" % (label, a, n, e, err))
                    continue
                except AssertionError:
                    if aligned:
                        raise
                    continue
                res.evals += 1
                res.ev("readInteger")
                if not inside:
                    return fail("bits-outside", "%s: readInteger(%d,%d) of %d bits returned %r" % (label, a, n, total, v))
                if not aligned and e != BIG_ENDIAN:
                    continue
                exp = model_bits(data, a, n, e)
                if exp is None:
                    return fail("bits-outside", "%s: middle endian words outside the stream" % label)
                if signed and exp >> (n - 1):
                    exp -= 1 << n
                if v != exp:
                    return fail("bits-value", "%s: readInteger(%d,%s,%d,%s)=%r expected %r" % (
                        label, a, signed, n, e, v, exp))
            elif op in (2, 3):
                a = address(total)
                if rng.random() < .9:
                    a -= a % 8
                n = rng.choice((0, 1, 2, 8, 100, 4096, 4097, 70000))
                if op == 3:
                    n = min(n, (total - a) // 8)
                inside = a + 8 * n <= total
                try:
                    v = s.readBytes(a, n)
                except StreamError as err:
                    res.ev("bytes_refused")
                    res.evals += 1
                    if inside and a % 8 == 0 and aligned and n and not forgotten(lossy, err):
                        return fail("bytes-refused", "%s: readBytes(%d,%d) of %d refused: %s" % (label, a, n, total, err))
                    continue
                except AssertionError:
                    if aligned and a % 8 == 0:
                        raise
                    continue
                res.evals += 1
                res.ev("readBytes")
                exp = data[a // 8:a // 8 + n] if a % 8 == 0 or not n or not inside else \
                    model_bits(data, a, 8 * n, BIG_ENDIAN).to_bytes(n, "big")
                if n and (not inside or v != exp):
                    return fail("bytes-value", "%s: readBytes(%d,%d) of %d bits gave %r (len %d)" % (
                        label, a, n, total, v[:16], len(v)))
                if not n and v != b"":
                    return fail("bytes-value", "%s: empty read gave %r" % (label, v))
            elif op == 4:
                # beyond the end, or before the start
                a, n = rng.choice(((total, 1), (total, 8), (total + 8, 8), (total + 80000, 8),
                                   (-8, 8), (-8, 16), (-1, 1), (total - 1, 2), (max(0, total - 8), 16)))
                try:
                    if rng.random() < .5:
                        v = s.readBits(a, n, rng.choice(ENDIANS[:2]))
                    else:
                        v = s.readBytes(a - a % 8, max(1, n // 8) + (1 if a == total - 1 else 0))
                except StreamError:
                    res.ev("outside_refused")
                    continue
                except AssertionError:
                    if aligned and a >= 0:
                        raise
                    continue
                return fail("outside", "%s: read of %d bits at %d of %d gave %r" % (label, n, a, total, v))
            elif op == 5:
                # low-level read
                a = address(total)
                a -= a % 8
                n = rng.choice((1, 10, 5000, 66000))
                try:
                    shift, v, missing = s.read(a, 8 * n)
                except StreamError as err:
                    if a + 8 * n <= total and not forgotten(lossy, err):
                        return fail("read-refused", "%s: read(%d,%d) of %d refused: %s" % (label, a, 8 * n, total, err))
                    continue
                except AssertionError:
                    if aligned:
                        raise
                    continue
                res.evals += 1
                res.ev("read")
                if not aligned:
                    continue
                if shift or v != data[a // 8:a // 8 + n] or bool(missing) != (a + 8 * n > total):
                    return fail("read-value", "%s: read(%d,%d) of %d: shift=%r len=%d missing=%r" % (
                        label, a, 8 * n, total, shift, len(v), missing))
            elif op in (6, 7, 8):
                if not aligned:
                    continue
                a = address(total)
                a -= a % 8
                k = rng.randrange(4)
                if k == 0:
                    needle = rng.randbytes(rng.choice((1, 2, 3)))
                elif k == 1:
                    needle = bytes(rng.choices(b"abc", k=rng.randint(1, 12)))
                else:
                    p = rng.randrange(len(data))
                    needle = data[p:p + rng.choice((1, 2, 4, 9, 40, 1500))]
                end = None
                if rng.random() < .5:
                    end = rng.choice((address(total), address(total), total, total + 800, a))
                    end -= end % 8
                lim = len(data) if end is None else min(len(data), max(end, 0) // 8)
                pos = data.find(needle, a // 8, lim) if lim >= a // 8 else -1
                exp = None if pos < 0 else 8 * pos
                if op == 8:
                    inc = rng.random() < .5
                    v = s.searchBytesLength(needle, inc, a, end)
                    exp2 = None if exp is None else (exp - a) // 8 + (len(needle) if inc else 0)
                    res.evals += 1
                    res.ev("searchBytesLength")
                    if v != exp2:
                        return fail("search-length", "%s: searchBytesLength(%r,%r,%d,%r) of %d = %r expected %r" % (
                            label, needle[:12], inc, a, end, total, v, exp2))
                else:
                    v = s.searchBytes(needle, a, end)
                    res.evals += 1
                    res.ev("search_hit" if v is not None else "search_miss")
                    if v != exp:
                        return fail("search", "%s: searchBytes(%r,%d,%r) of %d = %r expected %r" % (
                            label, needle[:12], a, end, total, v, exp))
            elif op in (9, 10):
                if not aligned:
                    continue
                if not files or rng.random() < .3:
                    files.append([s.file(), io.BytesIO(data)])
                f, m = rng.choice(files)
                for _ in range(rng.randint(1, 4)):
                    k = rng.randrange(4)
                    if k == 0:
                        p, w = rng.choice(((rng.randint(0, len(data)), 0), (len(data) + rng.randint(0, 9), 0),
                                           (-rng.randint(0, len(data)), 2), (0, 2), (0, 0), (0, 1),
                                           (rng.choice((0, 1, 9)), 1)))
                        f.seek(p, w)
                        m.seek(p, w)
                    elif k == 1:
                        res.evals += 1
                        if f.tell() != m.tell():
                            return fail("file-tell", "%s: tell()=%r expected %r" % (label, f.tell(), m.tell()))
                    else:
                        n = rng.choice((None, -1, 0, 1, 10, 1000, 70000, 4096))
                        x = f.read() if n is None else f.read(n)
                        y = m.read() if n is None else m.read(n)
                        res.evals += 1
                        res.ev("file_read")
                        if x != y:
                            return fail("file-read", "%s: file read(%r) gave %d bytes %r, expected %d bytes %r" % (
                                label, n, len(x), x[:12], len(y), y[:12]))
            elif op == 11:
                n = rng.choice((1, total, total + 1, total - 1, rng.randint(1, 2 * total)))
                if n < 1:
                    continue
                const = rng.random() < .3
                v = s.sizeGe(n, const)
                res.evals += 1
                res.ev("sizeGe")
                if bool(v) != (n <= total) and not (const and not v):
                    return fail("sizeGe", "%s: sizeGe(%d,%s)=%r, size %d" % (label, n, const, v, total))
            else:
                # sub-stream of the stream, checked recursively
                if len(data) < 2:
                    continue
                b = rng.randint(0, len(data) - 1)
                n = rng.randint(1, len(data) - b)
                sub = InputSubStream(s, 8 * b, 8 * n)
                res.ev("substream")
                if ops_on(res, rng, sub, data[b:b + n], label + "+sub", 3, fail, aligned, lossy):
                    return True
            size = s.size
            if size is not None and size != total:
                return fail("size", "%s: size=%r expected %r" % (label, size, total))
        except Exception as err:
            import traceback
            if forgotten(lossy, err):
                res.ev("forgotten")
                files.clear()
                continue
            return fail("exception:%s" % type(err).__name__, "%s: op %d: %s" % (
                label, op, "".join(traceback.format_exception(err))[-700:]))
    if rng.random() < .5:
        # reach the end: the size must become known
        try:
            s.sizeGe(total + 1)
        except StreamError:
            pass
        res.evals += 1
        if s.size != total:
            return fail("size-unknown", "%s: size %r after the end was reached, expected %d" % (label, s.size, total))
        res.ev("size_known" if not pipe else "size_discovered")
    return False


def case(seed):
    res = Result()
    rng = rng_for(PID, env.SEED, seed)
    keep = []
    with tempfile.TemporaryDirectory(prefix="c06") as tmp:
        data = make_content(rng)

        def fail(key, msg):
            res.fail(key, msg, seed=seed)
            return True
        try:
            s, label = make(rng, data, tmp, keep)
        except Exception as err:
            import traceback
            fail("open:%s" % type(err).__name__, "".join(traceback.format_exception(err))[-900:])
            return res
        res.seen(label, len(data))
        res.ev("kind:" + label.split("(")[0])
        ops_on(res, rng, s, data, label, rng.choice((1, 3, 12, 25)), fail, "bitsub" not in label,
               "lossy" in keep)
        if seed % 211 == 0:
            res.samples.append("%s of %d bytes" % (label, len(data)))
        for k in keep:
            if isinstance(k, tuple) and k[0] == "close":
                k[1].close()
            elif isinstance(k, tuple):
                k[1].close()
                k[2].join(10)
    return res


def main():
    c = check.Check(PID, "one random content per case through one of 16 kinds of (nested) streams and up to 25 "
                    "interleaved requests; distinct by (nesting of stream kinds, content length)",
                    required=("readInteger", "readBytes", "read", "outside_refused", "search_hit", "search_miss",
                              "file_read", "sizeGe", "substream", "size_discovered", "kind:pipe", "kind:pipe-raw",
                              "kind:fragmented", "kind:concat", "kind:deflate", "kind:field", "kind:sub"))
    c.run(case, range(c.n(60000, 600000)), timeout=60, deadline=c.deadline(60, 700))
    return c.finish()


if __name__ == "__main__":
    raise SystemExit(main())
