"""C07: bit-level output. Reference model: a list of bits.

Random sequences of writes are applied to a real OutputStream (memory, file,
caller's BytesIO) and to the model; the produced bytes, the values read back
by input streams, and readBytes() results are compared with the model."""
import io
import os
import tempfile

from vlib import env, check
from vlib.check import Result, rng_for
from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN
from hachoir.stream import (OutputStream, StringOutputStream, FileOutputStream,
                            StringInputStream, InputIOStream, InputSubStream,
                            StreamError, OutputStreamError)

PID = "C07"


class Model:
    def __init__(self):
        self.done = bytearray()
        self.bits = []      # bits of the unfinished byte, in writing order
        self.endian = None

    def put(self, bit, endian):
        self.endian = endian
        self.bits.append(bit)
        if len(self.bits) == 8:
            v = 0
            for i, b in enumerate(self.bits):
                v |= b << (7 - i if endian == BIG_ENDIAN else i)
            self.done.append(v)
            self.bits = []

    def put_value(self, count, value, endian):
        order = range(count - 1, -1, -1) if endian == BIG_ENDIAN else range(count)
        for i in order:
            self.put((value >> i) & 1, endian)

    @property
    def pos(self):
        return len(self.done) * 8 + len(self.bits)


def src_bits(data, addr, n, endian):
    """Bits of a source in transfer order."""
    out = []
    for a in range(addr, addr + n):
        byte = data[a >> 3]
        k = a & 7
        out.append((byte >> (7 - k if endian == BIG_ENDIAN else k)) & 1)
    return out


def rand_value(rng, count):
    if count == 0:
        return 0
    k = rng.randrange(5)
    if k == 0:
        return 0
    if k == 1:
        return (1 << count) - 1
    if k == 2:
        return 1 << rng.randrange(count)
    if k == 3:
        return ((1 << count) - 1) ^ (1 << rng.randrange(count))
    return rng.getrandbits(count)


def make_source(rng, tmp):
    data = rng.randbytes(rng.choice((1, 3, 40, 300, 5000, 20000)))
    kind = rng.randrange(4)
    if kind == 0:
        return data, StringInputStream(data), "string"
    if kind == 1:
        return data, InputIOStream(io.BytesIO(data)), "io"
    if kind == 2:
        path = os.path.join(tmp, "src")
        with open(path, "wb") as fp:
            fp.write(data)
        from hachoir.stream import FileInputStream
        return data, FileInputStream(path), "file"
    pad = rng.randbytes(rng.randint(0, 9))
    inner = StringInputStream(pad + data + rng.randbytes(5))
    return data, InputSubStream(inner, 8 * len(pad), 8 * len(data)), "sub"


def case(seed):
    res = Result()
    rng = rng_for(PID, env.SEED, seed)
    with tempfile.TemporaryDirectory(prefix="c07") as tmp:
        one(res, rng, tmp, seed)
    return res


def one(res, rng, tmp, seed):
    kind = rng.choice(("string", "file", "io"))
    path = os.path.join(tmp, "out")
    if kind == "string":
        out = StringOutputStream()
        sink = out._output
    elif kind == "io":
        sink = io.BytesIO()
        out = OutputStream(sink)
    else:
        out = FileOutputStream(path)
        sink = None
    m = Model()
    data, src, skind = make_source(rng, tmp)
    endian = rng.choice((BIG_ENDIAN, LITTLE_ENDIAN))
    mixed = rng.random() < .3
    trace = []          # (start bit, nbits, value, signed, endian)
    ops = []
    aligned_bias = rng.random()

    def fail(key, msg):
        res.fail(key, msg, ops=ops[-12:], kind=kind, seed=seed)

    try:
        for _ in range(rng.randint(1, 40)):
            if mixed and not m.bits and rng.random() < .5:
                endian = rng.choice((BIG_ENDIAN, LITTLE_ENDIAN))
            op = rng.randrange(9)
            start = m.pos
            if m.bits and rng.random() < aligned_bias:
                n = 8 - len(m.bits)
                v = rand_value(rng, n)
                ops.append(("align", n, v, endian))
                out.writeBits(n, v, endian)
                m.put_value(n, v, endian)
                trace.append((start, n, v, False, endian))
                continue
            if op == 0:
                b = rng.randrange(2)
                state = rng.choice((b, bool(b)))
                ops.append(("bit", state, endian))
                out.writeBit(state, endian)
                m.put(b, endian)
                trace.append((start, 1, b, False, endian))
                res.ev("writeBit")
            elif op in (1, 2):
                n = rng.choice((0, 1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32,
                                33, 64, 65, 127, rng.randint(0, 300)))
                v = rand_value(rng, n)
                ops.append(("bits", n, v, endian))
                out.writeBits(n, v, endian)
                m.put_value(n, v, endian)
                if n:
                    trace.append((start, n, v, False, endian))
                res.ev("writeBits")
            elif op == 3:
                size = rng.choice((1, 2, 3, 4, 5, 8, 16))
                signed = rng.random() < .5
                v = rand_value(rng, 8 * size)
                if signed and v >= 1 << (8 * size - 1):
                    v -= 1 << (8 * size)
                ops.append(("int", v, signed, size, endian))
                raw = v.to_bytes(size, "big" if endian == BIG_ENDIAN else "little",
                                 signed=signed)
                try:
                    out.writeInteger(v, signed, size, endian)
                except NotImplementedError:
                    res.ev("refused")
                    if not m.bits:
                        fail("int-refused", "aligned writeInteger refused")
                        return
                    continue
                # accepting an unaligned integer is only right when it is
                # written as its bits
                m.put_value(8 * size, int.from_bytes(raw, "big" if endian == BIG_ENDIAN else "little"), endian)
                trace.append((start, 8 * size, v, signed, endian))
                res.ev("writeInteger")
            elif op == 4:
                raw = rng.randbytes(rng.choice((0, 1, 2, 7, 100)))
                ops.append(("bytes", raw[:16], len(raw)))
                try:
                    out.writeBytes(raw)
                except NotImplementedError:
                    res.ev("refused")
                    if not m.bits:
                        fail("bytes-refused", "aligned writeBytes refused")
                        return
                    continue
                for byte in raw:
                    m.put_value(8, byte, endian)
                res.ev("writeBytes")
            elif op in (5, 6):
                addr = rng.randrange(8 * len(data))
                if rng.random() < .4:
                    addr -= addr % 8
                left = 8 * len(data) - addr
                n = min(left, rng.choice((0, 1, 3, 8, 16, 77, 255, 256, 257, 511, 512, 513,
                                          1024, 32768, 33000, 65536, rng.randint(0, 4000))))
                if rng.random() < .4:
                    n -= n % 8
                ops.append(("copybits", skind, addr, n, endian))
                try:
                    out.copyBitsFrom(src, addr, n, endian)
                except NotImplementedError:
                    fail("copybits-refused", "copyBitsFrom refused")
                    return
                for b in src_bits(data, addr, n, endian):
                    m.put(b, endian)
                res.ev("copyBits")
                if n > 256:
                    res.ev("copyBits_long")
            elif op == 7:
                addr = rng.randrange(len(data))
                n = min(len(data) - addr, rng.choice((0, 1, 100, 4095, 4096, 4097, 8192, 12288, 15000)))
                off = 0 if rng.random() < .9 else rng.randint(1, 7)
                ops.append(("copybytes", skind, 8 * addr + off, n))
                try:
                    out.copyBytesFrom(src, 8 * addr + off, n)
                except (NotImplementedError, OutputStreamError):
                    res.ev("refused")
                    if not off and (not m.bits or not n):
                        fail("copybytes-refused", "aligned copyBytesFrom refused")
                        return
                    continue
                if off and n:
                    fail("copybytes-unaligned", "unaligned source accepted")
                    return
                for byte in data[addr:addr + n]:
                    m.put_value(8, byte, endian)
                res.ev("copyBytes")
            else:
                total = len(m.done)
                a = rng.randint(0, max(0, total))
                n = rng.choice((1, 2, 10, 512, 65536))
                ops.append(("readback", a, n))
                try:
                    got = out.readBytes(8 * a, n)
                except OutputStreamError:
                    res.ev("readBytes_refused")
                    if kind != "file":
                        fail("readback-refused", "readBytes refused on %s" % kind)
                        return
                else:
                    res.evals += 1
                    res.ev("readBytes")
                    if got != bytes(m.done[a:a + n]):
                        fail("readback", "readBytes(%d,%d)=%r expected %r" % (
                            8 * a, n, got and got[:20], bytes(m.done[a:a + n])[:20]))
                        return
        # a copy past the end of the source is refused
        if rng.random() < .5:
            total = 8 * len(data)
            addr = rng.randrange(total)
            n = total - addr + rng.choice((1, 8, 800))
            try:
                out.copyBitsFrom(src, addr, n, endian)
            except StreamError:
                res.ev("overrun_refused")
                # the output is now unspecified after the last whole request
                return
            fail("copy-overrun", "copyBitsFrom(%d,%d) beyond %d accepted" % (addr, n, total))
            return
        # complete the last byte, then compare
        if m.bits:
            n = 8 - len(m.bits)
            v = rand_value(rng, n)
            start = m.pos
            out.writeBits(n, v, m.endian)
            m.put_value(n, v, m.endian)
            trace.append((start, n, v, False, m.endian))
    except Exception as err:
        fail("exception:%s" % type(err).__name__, "%s: %s" % (type(err).__name__, err))
        return
    if kind == "file":
        out.close()
        with open(path, "rb") as fp:
            got = fp.read()
    else:
        got = sink.getvalue()
    res.evals += 1
    res.seen(tuple(o[0] for o in ops), m.pos)
    if got != bytes(m.done):
        k = next((i for i, (x, y) in enumerate(zip(got, m.done)) if x != y),
                 min(len(got), len(m.done)))
        fail("output", "output differs at byte %d: got %r (len %d) expected %r (len %d)" % (
            k, got[k:k + 8], len(got), bytes(m.done[k:k + 8]), len(m.done)))
        return
    if got:
        rd = StringInputStream(got)
        for start, n, v, signed, e in trace:
            back = rd.readInteger(start, signed, n, e)
            res.evals += 1
            if back != v:
                fail("roundtrip", "wrote %d bits %r at %d, read %r" % (n, v, start, back))
                return
            res.ev("roundtrip")
    if kind == "file":
        res.expect(out._output.closed, "close", "file not closed")
    if seed % 97 == 0:
        res.samples.append(repr(ops[:6]))


def main():
    c = check.Check(PID, "random write sequences (40 ops max) on memory/file outputs; distinct by "
                    "(operation kinds, total bits)",
                    required=("writeBit", "writeBits", "writeInteger", "writeBytes", "copyBits_long",
                              "copyBytes", "readBytes", "roundtrip", "overrun_refused"))
    c.run(case, range(c.n(30000, 300000)), timeout=60, deadline=c.deadline(60, 700))
    c.assumptions = ["the byte order changes only at byte boundaries",
                     "byte-level writes at an unaligned bit position are refused (documented limit)"]
    return c.finish()


if __name__ == "__main__":
    raise SystemExit(main())
