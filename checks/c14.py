"""C14: embedded, compressed and fragmented content is delivered exactly.

Ground truth is the content which was stored by the writers of vlib.gen (and of
the Python library).  Monitored kinds of executions:
  part    every embedded file of a generated container is read through its
          sub-stream with random access patterns (whole, chunks in order, chunks
          at random positions, bits, the file interface, searches, questions
          about the size, reads past the end), the container being read from
          memory, a file, a part of a larger stream or a pipe
  nest    real files are stored in a container (which is stored in a container
          ...): the tree of the parser guessed on the sub-stream is compared
          with the tree of the same parser on the original file
  damage  containers are cut or damaged: reading an embedded file ends, with an
          error or with data; the data of a cut file is the start of the content,
          and the data never exceeds what the compressed data can hold
"""
import io
import os
import tempfile

from vlib import check, corpus, env, gen, model
from vlib.check import Result, rng_for
from vlib.env import SEED
from vlib.formats import BY_ID, tmp_root
from vlib.facts import generic
from vlib.gen import archive
from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN, MIDDLE_ENDIAN
from hachoir.metadata import extractMetadata
from hachoir.parser.guess import guessParser
from hachoir.stream import (FileInputStream, InputIOStream, InputStreamError, InputSubStream,
                            StringInputStream)

PID = "C14"
ENDIANS = ((BIG_ENDIAN, model.BIG), (LITTLE_ENDIAN, model.LITTLE), (MIDDLE_ENDIAN, model.MIDDLE))
LIMIT = 4 << 20


class Pipe(io.RawIOBase):
    """input which cannot be sought"""

    def __init__(self, data):
        self._b = io.BytesIO(data)

    def readable(self):
        return True

    def read(self, n=-1):
        return self._b.read(n)

    def seekable(self):
        return False

    def seek(self, *a):
        raise io.UnsupportedOperation("seek")

    def tell(self):
        raise io.UnsupportedOperation("tell")


def open_container(g, rng, tmp, pipe=True):
    cls = BY_ID[g.parser]
    r = rng.random()
    if r < .5:
        how, stream = "memory", StringInputStream(g.data)
    elif r < .7 and tmp:
        path = os.path.join(tmp, "file.bin")
        with open(path, "wb") as fp:
            fp.write(g.data)
        how, stream = "file", FileInputStream(path)
    elif r < .85:
        pre, post = rng.randbytes(rng.randint(0, 700)), b""
        if g.size == len(g.data) and rng.random() < .5:
            pass
        how, stream = "sub-stream", InputSubStream(StringInputStream(pre + g.data + post), 8 * len(pre), 8 * len(g.data))
    elif pipe:
        how, stream = "pipe", InputIOStream(Pipe(g.data))
    else:
        how, stream = "memory", StringInputStream(g.data)
    return how, cls(stream, validate=True)


def target(p, path):
    f = p[path]
    return f.value if type(f).__name__ in ("Link", "InodeLink") else f


# Parsers which don't support an input whose size isn't known (stated in the code)
NEED_SIZE = ("cab", "gzip", "rpm")


# ----------------------------------------------------------------- patterns

class Mismatch(Exception):
    pass


def must(cond, msg):
    if not cond:
        raise Mismatch(msg)


def diff(got, want):
    n = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
    return "%d bytes instead of %d, first difference at %d: %s instead of %s" % (
        len(got), len(want), n, got[n:n + 12].hex(), want[n:n + 12].hex())


def at_end(stream, data, rng):
    """read past the end: an error, then the size is known"""
    over = rng.choice((1, 2, 7, 512, 100000))
    start = rng.randint(0, len(data))
    try:
        got = stream.readBytes(8 * start, len(data) - start + over)
    except InputStreamError:
        pass
    else:
        raise Mismatch("read of %d bytes at %d of %d bytes gives %d bytes" % (
            len(data) - start + over, start, len(data), len(got)))
    must(stream.size == 8 * len(data), "size is %s bits for %d bytes" % (stream.size, len(data)))


def read_whole(stream, data, rng):
    got = stream.file().read()
    must(got == data, "file().read(): " + diff(got, data))


def read_seq(stream, data, rng):
    step = rng.choice((1, 3, 64, 511, 512, 513, 4096, 40000))
    step = max(step, len(data) // 300)
    pos = 0
    while pos < len(data):
        n = min(rng.randint(1, step), len(data) - pos)
        got = stream.readBytes(8 * pos, n)
        must(got == data[pos:pos + n], "readBytes(%d, %d): %s" % (pos, n, diff(got, data[pos:pos + n])))
        pos += n
    at_end(stream, data, rng)


def read_random(stream, data, rng):
    for _ in range(rng.randint(1, 25)):
        r = rng.random()
        if r < .1:
            at_end(stream, data, rng)
            continue
        a = rng.randint(0, len(data) - 1)
        n = rng.choice((1, 2, 16, 600, 5000, len(data)))
        n = rng.randint(1, min(n, len(data) - a))
        got = stream.readBytes(8 * a, n)
        must(got == data[a:a + n], "readBytes(%d, %d): %s" % (a, n, diff(got, data[a:a + n])))


def read_bits(stream, data, rng):
    for _ in range(rng.randint(1, 25)):
        endian, mendian = rng.choice(ENDIANS)
        n = rng.randint(1, 72)
        a = rng.randint(0, max(0, 8 * len(data) - n))
        want = model.bits(data, a, n, mendian)
        try:
            got = stream.readBits(a, n, endian)
        except InputStreamError:
            got = None
        must(got == want, "readBits(%d, %d, %s) is %s instead of %s" % (a, n, endian, got, want))


def read_search(stream, data, rng):
    for _ in range(rng.randint(1, 6)):
        a = rng.randint(0, len(data) - 1)
        needle = data[a:a + rng.randint(1, 9)]
        if rng.random() < .2:
            needle += rng.randbytes(2)
        start = rng.randint(0, a) if rng.random() < .6 else 0
        end = rng.randint(start, len(data)) if rng.random() < .5 else None
        want = data.find(needle, start, end if end is not None else len(data))
        got = stream.searchBytes(needle, 8 * start, 8 * end if end is not None else None)
        must(got == (8 * want if want >= 0 else None), "searchBytes(%s, %d, %s) is %s instead of %s" % (
            needle.hex(), start, end, got, 8 * want if want >= 0 else None))


def read_file(stream, data, rng):
    fp, ref = stream.file(), io.BytesIO(data)
    for _ in range(rng.randint(1, 30)):
        r = rng.random()
        if r < .4:
            n = rng.choice((1, 10, 512, 5000, len(data) + 3))
            n = rng.randint(0, n)
            got, want = fp.read(n), ref.read(n)
            must(got == want, "file().read(%d) at %d: %s" % (n, ref.tell() - len(want), diff(got, want)))
        elif r < .5:
            got, want = fp.read(), ref.read()
            must(got == want, "file().read() at %d: %s" % (ref.tell() - len(want), diff(got, want)))
        elif r < .8:
            a = rng.randint(0, len(data))
            fp.seek(a)
            ref.seek(a)
        elif r < .9:
            a = rng.randint(0, len(data))
            fp.seek(-a, 2)
            ref.seek(-a, 2)
        else:
            a = rng.randint(-ref.tell(), max(0, len(data) - ref.tell()))
            fp.seek(a, 1)
            ref.seek(a, 1)
        must(fp.tell() == ref.tell(), "file().tell() is %s instead of %s" % (fp.tell(), ref.tell()))


def read_size(stream, data, rng):
    for _ in range(rng.randint(1, 8)):
        n = 8 * rng.choice((len(data), rng.randint(0, 2 * len(data) + 2))) + rng.choice((0, 0, 0, 1, 8))
        got = stream.sizeGe(n)
        must(bool(got) == (8 * len(data) >= n), "sizeGe(%d) is %s for %d bits" % (n, got, 8 * len(data)))
        must(stream.size is None or stream.size == 8 * len(data), "size is %s for %d bits" % (stream.size, 8 * len(data)))


PATTERNS = (read_whole, read_seq, read_random, read_bits, read_search, read_file, read_size)


def read_part(res, key, label, p, path, data, rng):
    """Reads of one embedded file by a sequence of patterns"""
    order = rng.sample(PATTERNS, rng.randint(1, 3))
    done = []
    try:
        f = target(p, path)
        stream = f.getSubIStream()
        for pattern in order:
            done.append(pattern.__name__[5:])
            if rng.random() < .15:
                # a new stream of the same field
                del stream
                stream = target(p, path).getSubIStream()
            pattern(stream, data, rng)
            res.evals += 1
            res.ev("reads: " + pattern.__name__[5:])
            if rng.random() < .3:
                p.stream.readBytes(8 * rng.randint(0, 3), 1)
    except Mismatch as err:
        return res.fail(key + "data", "%s: %s (%d bytes): after %s: %s" % (label, path, len(data), "+".join(done), err))
    except Exception as err:
        return res.fail(key + type(err).__name__, "%s: %s (%d bytes): %s: %s: %s" % (
            label, path, len(data), "+".join(done), type(err).__name__, str(err)[:300]))
    res.ev("embedded files")
    res.ev("bytes of embedded files", len(data))


def part_case(name, k):
    res = Result()
    rng = rng_for(PID, SEED, "part", name, k)
    g = gen.make(name, rng)
    parts = [(path, data) for path, data in g.parts if data]
    if not parts:
        return res
    res.seen(g.data)
    label = "%s #%s" % (name, k)
    with tempfile.TemporaryDirectory(dir=tmp_root()) as tmp:
        try:
            how, p = open_container(g, rng, tmp, pipe=g.parser not in NEED_SIZE)
        except Exception as err:
            res.fail(name + ":refused", "%s: %s: %s" % (label, type(err).__name__, err))
            return res
        res.ev("containers from " + how)
        res.ev("containers: " + name)
        if rng.random() < .7:
            rng.shuffle(parts)
        for path, data in parts[:12]:
            read_part(res, "%s:%s:" % (name, generic(path)), label + " from " + how, p, path, data, rng)
        if k < 2:
            res.samples.append("%s: %s" % (label, [(path, len(data)) for path, data in parts[:4]]))
        p.stream.close()
    return res


# -------------------------------------------------------------------- nest

WRAPPERS = ("zip:stored", "zip:deflated", "tar", "gzip", "bzip2", "fat12", "fat16", "fat32", "mar", "cab", "zlib")


def wrap(rng, payload):
    """container with the payload as one of its files: (G, path) or None"""
    for _ in range(20):
        name = rng.choice(WRAPPERS)
        archive.PAYLOADS[:] = [payload]
        try:
            g = gen.make(name.partition(":")[0], rng)
        except Exception:
            continue        # too large for this container
        finally:
            archive.PAYLOADS[:] = []
        paths = [path for path, data in g.parts if data == payload]
        if paths:
            return g, paths[0]
    return None


def tree_of(p, limit=700):
    out = []
    stack = [p]
    while stack and len(out) < limit:
        fs = stack.pop()
        sets = []
        n = 0
        for f in fs:
            try:
                value = f.value if not f.is_field_set else None
                value = getattr(value, "path", value)
            except Exception as err:
                value = type(err).__name__
            try:
                display = f.display if not f.is_field_set else None
            except Exception as err:
                display = type(err).__name__
            out.append((f.path, f.absolute_address, f.size, type(f).__name__, value if value == value else "nan", display,
                        f.description))
            n += 1
            if n > 200 or len(out) >= limit:
                break
            if f.is_field_set:
                sets.append(f)
        stack.extend(reversed(sets))
    return out


def meta_of(p):
    try:
        m = extractMetadata(p, quality=1.0)
    except Exception as err:
        return type(err).__name__
    return m.exportPlaintext() if m is not None else None


def payload_of(rng):
    r = rng.random()
    if r < .6:
        names = gen.names("image", "archive", "media")
        name = rng.choice(names)
        g = gen.make(name, rng)
        return name, g.data
    names = corpus.names()
    while True:
        name = rng.choice(names)
        data = corpus.load(name)
        if len(data) <= 300000:
            return name, data


def nest_case(kind, k):
    res = Result()
    rng = rng_for(PID, SEED, "nest", k)
    name, payload = payload_of(rng)
    if not payload:
        return res
    layers = []
    data = payload
    for _ in range(rng.choice((1, 1, 1, 2, 2, 3))):
        w = wrap(rng, data)
        if w is None:
            break
        layers.insert(0, w)
        data = w[0].data
        if len(data) > 400000:
            break
    if not layers:
        return res
    res.seen(data)
    label = "nest #%d: %s in %s" % (k, name, " in ".join("%s(%s)" % (w[0].name, w[1]) for w in reversed(layers)))
    stream = StringInputStream(data)
    key = "nest:"
    keep = []
    parents = []
    for i, (g, path) in enumerate(layers):
        cls = BY_ID[g.parser]
        try:
            p = cls(stream, validate=True)
            parents.append(p)
            stream = target(p, path).getSubIStream()
            if i + 1 < len(layers) and layers[i + 1][0].parser in NEED_SIZE:
                stream.sizeGe(1 << 40)
        except Exception as err:
            res.fail("%s%s:%s" % (key, g.name, type(err).__name__), "%s: layer %d: %s: %s" % (label, i, type(err).__name__, err))
            return res
        keep.append(stream)
    res.ev("nested %d deep" % len(layers))
    strict = rng.random() < .6 or name in NEED_SIZE
    if strict:
        stream.sizeGe(8 * len(payload) + 8)
        res.expect(stream.size == 8 * len(payload), key + "size", "%s: size %s instead of %d bits" % (
            label, stream.size, 8 * len(payload)))
    tags = list(stream.tags)
    if strict or stream.size is not None:
        orig = StringInputStream(payload, tags=tags)
    else:
        orig = InputIOStream(Pipe(payload), tags=tags)
    try:
        a, b = guessParser(stream), guessParser(orig)
    except Exception as err:
        res.fail("%sguess:%s" % (key, type(err).__name__), "%s: guessParser: %s" % (label, err))
        return res
    res.evals += 1
    if not res.expect(type(a) is type(b), key + "guess", "%s: guessed %s in the container, %s outside" % (
            label, type(a).__name__, type(b).__name__)) or a is None:
        res.ev("no parser for the embedded file") if a is None else None
        return res
    res.ev("guessed in containers")
    ta, tb = tree_of(a), tree_of(b)
    res.ev("fields compared", len(ta))
    for x, y in zip(ta, tb):
        res.evals += 1
        if x != y:
            res.fail(key + "tree:" + type(a).__name__, "%s: field %s in the container is %s outside" % (
                label, str(x)[:300], str(y)[:300]))
            break
    res.expect(len(ta) == len(tb), key + "tree:" + type(a).__name__, "%s: %d fields in the container, %d outside" % (
        label, len(ta), len(tb)))
    if strict:
        ma, mb = meta_of(a), meta_of(b)
        res.expect(ma == mb, key + "metadata", lambda: "%s: metadata %s instead of %s" % (
            label, *next(((x, y) for x, y in zip((ma or []) + [None], (mb or []) + [None]) if x != y), (ma, mb))))
        res.ev("metadata compared")
    return res


# ------------------------------------------------------------------- damage

def read_all(stream, limit):
    """(bytes, error or None), at most limit bytes and a bit more"""
    out = []
    n = 0
    fp = stream.file()
    while n <= limit:
        try:
            b = fp.read(65536)
        except (MemoryError, RecursionError):
            raise
        except Exception as err:
            return b"".join(out), err
        if not b:
            return b"".join(out), None
        out.append(b)
        n += len(b)
    return b"".join(out), "endless"


def bound(name, size, path):
    """most bytes that the compressed data can stand for"""
    if name == "bzip2" or "bz" in name:
        return 20 * (1 << 20)
    return 1040 * size + 70000


def damage_case(name, k):
    res = Result()
    rng = rng_for(PID, SEED, "damage", name, k)
    g = gen.make(name, rng)
    parts = [(path, data) for path, data in g.parts if data]
    if not parts:
        return res
    data = bytearray(g.data)
    cut = rng.random() < .5
    if cut:
        del data[rng.randrange(len(data) // 4, len(data)):]
    else:
        for _ in range(rng.randint(1, 4)):
            a = rng.randrange(len(data))
            data[a] = rng.choice((data[a] ^ 1 << rng.randrange(8), rng.randrange(256), 0, 255))
    res.seen(bytes(data))
    label = "damage %s #%d (%s)" % (name, k, "cut at %d of %d" % (len(data), len(g.data)) if cut else "damaged")
    try:
        p = BY_ID[g.parser](StringInputStream(bytes(data)), validate=True)
    except Exception:
        res.ev("refused")
        return res
    for path, want in rng.sample(parts, min(3, len(parts))):
        try:
            stream = target(p, path).getSubIStream()
        except (MemoryError, RecursionError) as err:
            res.fail("damage:%s:%s" % (name, type(err).__name__), "%s: %s: %s" % (label, path, err))
            continue
        except Exception:
            res.ev("sub-stream refused")
            continue
        limit = max(bound(name, len(data), path), len(want))
        got, err = read_all(stream, limit)
        res.evals += 1
        res.ev("damaged files read" if not cut else "cut files read")
        if err is not None and err != "endless":
            res.ev("errors while reading")
        res.expect(err != "endless" and len(got) <= limit, "damage:%s:endless" % name,
                   "%s: %s: more than %d bytes from %d bytes" % (label, path, limit, len(data)))
        if cut and name not in NOPREFIX:
            res.expect(want.startswith(got), "damage:%s:prefix" % name, lambda: "%s: %s: %s" % (label, path, diff(got, want)))
    return res


NOPREFIX = ()


def case(c):
    kind, name, k = c
    if kind == "part":
        return part_case(name, k)
    if kind == "nest":
        return nest_case(name, k)
    return damage_case(name, k)


def with_parts():
    out = []
    for name in gen.names():
        for k in range(8):
            if gen.make(name, rng_for(PID, "parts", name, k)).parts:
                out.append(name)
                break
    return out


def main():
    c = check.Check(PID, "container, by content; its embedded files and how they are read",
                    required=("embedded files", "guessed in containers", "fields compared", "metadata compared",
                              "damaged files read", "cut files read", "errors while reading",
                              "containers from pipe", "containers from file", "containers from sub-stream"))
    names = with_parts()
    cases = []
    for k in range(c.n(700, 9000)):
        cases += [("part", name, k) for name in names]
        cases += [("nest", "", 4 * k + i) for i in range(4)]
        if k % 2 == 0:
            cases += [("damage", name, k) for name in names]
    c.run(case, cases, timeout=240, deadline=c.deadline(150, 3000), on_timeout=c.note_timeout)
    for name in names:
        if not c.events.get("containers: " + name) and not any(v.startswith(name + ":") for v in c.viol):
            c.problems.append("no container %s was read" % name)
    return c.finish()


if __name__ == "__main__":
    raise SystemExit(main())
