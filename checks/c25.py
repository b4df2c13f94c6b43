"""C25: the tree does not depend on how the bytes arrive.

The same bytes are parsed by the same parser from memory (the reference) and
from: a regular file, a part of a larger stream (at any byte, between other
data), a part without size which goes to the end of a larger stream, a file
object, a pipe whose size is not known (read in pieces of any length), the
field of another tree, a sequence of streams.  Monitored on both sides: every
field (path, class, address, size, value, display, description), read in order
or after other accesses, the content size, the description and the MIME type
of the parser, and the metadata.  Damaged files are read from the sources
whose size is known."""
import io
import os
import re
import tempfile
import traceback

from vlib import check, corpus, gen
from vlib.check import Result, rng_for
from vlib.env import SEED
from vlib.facts import generic
from vlib.formats import BY_ID, tmp_root
from hachoir.core.endian import BIG_ENDIAN
from hachoir.field import Parser as FieldParser, RawBytes, SubFile
from hachoir.metadata import extractMetadata
from hachoir.parser import guessParser
from hachoir.stream import FileInputStream, InputIOStream, InputSubStream, StringInputStream
from hachoir.stream.input import ConcatStream, InputPipe

PID = "C25"
# Parsers which don't support an input whose size isn't known (stated in the code)
NEED_SIZE = set()
KNOWN = ("file", "part", "object", "field", "concatenation")
UNKNOWN = ("pipe", "open part")
# Data which no field of the parser covers isn't shown when the size isn't known
UNREAD = re.compile(r"/(raw|unparsed|padding)\[\d+\]$").match


class Pipe(io.RawIOBase):
    """input which cannot be sought, read in pieces of any length"""

    def __init__(self, data, rng):
        self._b = io.BytesIO(data)
        self._rng = rng

    def readable(self):
        return True

    def read(self, n=-1):
        return self._b.read(n)

    def seekable(self):
        return False

    def seek(self, *a):
        raise io.UnsupportedOperation("seek")

    def tell(self):
        raise io.UnsupportedOperation("tell")


# Blocks of 64 KB would hold the whole of most files
InputPipe.buffer_size = 5
InputPipe.buffer_nb_min = 1 << 30


class Host(FieldParser):
    endian = BIG_ENDIAN
    before = length = after = 0

    def createFields(self):
        if self.before:
            yield RawBytes(self, "before", self.before)
        yield SubFile(self, "file", self.length)
        if self.after:
            yield RawBytes(self, "after", self.after)


def source(kind, data, rng, tmp):
    pre = rng.randbytes(rng.choice((1, 2, 3, 7, 100, rng.randint(1, 3000))))
    post = rng.choice((b"", data[:100], rng.randbytes(rng.randint(1, 300)), bytes(rng.randint(1, 300))))
    if kind == "memory":
        return StringInputStream(data)
    if kind == "file":
        path = os.path.join(tmp, "file.bin")
        with open(path, "wb") as fp:
            fp.write(data)
        return FileInputStream(path)
    if kind == "part":
        return InputSubStream(StringInputStream(pre + data + post), 8 * len(pre), 8 * len(data))
    if kind == "open part":
        return InputSubStream(StringInputStream(pre + data), 8 * len(pre))
    if kind == "object":
        return InputIOStream(io.BytesIO(data))
    if kind == "pipe":
        return InputIOStream(Pipe(data, rng))
    if kind == "field":
        host = Host(StringInputStream(pre + data + post))
        host.before, host.length, host.after = len(pre), len(data), len(post)
        return host["file"].getSubIStream()
    n = min(len(data) - 1, rng.choice((1, 5, 500, rng.randrange(1, len(data)), len(data))))
    return ConcatStream([StringInputStream(data[:n]), StringInputStream(data[n:])])


def where(err):
    return "%s:%d" % traceback.extract_tb(err.__traceback__)[-1][:2]


def text_of(f, what):
    try:
        return getattr(f, what)
    except Exception as err:
        return "%s" % type(err).__name__


def tree_of(p, limit, per_set=400):
    out = []
    stack = [p]
    while stack and len(out) < limit:
        fs = stack.pop()
        sets = []
        for n, f in enumerate(fs):
            value = None
            if not f.is_field_set:
                value = text_of(f, "value")
                value = getattr(value, "path", value)
                if isinstance(value, (bytes, str)) and len(value) > 200:
                    value = hash(value)
            out.append((f.path, type(f).__name__, f.absolute_address, f.size, "nan" if value != value else value,
                        text_of(f, "display") if not f.is_field_set else None, text_of(f, "description")))
            if n > per_set or len(out) >= limit:
                break
            if f.is_field_set:
                sets.append(f)
        stack.extend(reversed(sets))
    return out


def state_of(p):
    return [(what, text_of(p, what)) for what in ("description", "content_size", "mime_type", "filename_suffix", "size")]


def meta_of(p):
    try:
        m = extractMetadata(p, quality=1.0)
    except Exception as err:
        return [type(err).__name__]
    return m.exportPlaintext(human=False) if m is not None else None


def touch(p, rng):
    """accesses before the tree is read"""
    for _ in range(rng.randint(1, 5)):
        r = rng.random()
        try:
            if r < .2:
                p.content_size
            elif r < .4:
                p.description
            elif r < .6:
                f = p[rng.randrange(6)]
                if f.is_field_set:
                    f[0].value
            elif r < .7:
                extractMetadata(p, quality=.5)
            elif r < .85:
                len(p)
            else:
                p.stream.sizeGe(8 * rng.randrange(1 << 20))
        except Exception:
            pass


def compare(res, label, name, cls, data, kinds, rng, tmp, limit):
    try:
        ref = cls(StringInputStream(data), validate=True)
    except Exception:
        res.ev("refused")
        for kind in kinds:
            try:
                cls(source(kind, data, rng, tmp), validate=True)
            except Exception:
                continue
            res.fail("%s:%s:accepted" % (name, kind), "%s: accepted from %s, refused from memory" % (label, kind))
        return
    want_all = tree_of(ref, limit)
    want_state, want_meta = None, None
    for kind in kinds:
        try:
            p = cls(source(kind, data, rng, tmp), validate=True)
        except Exception as err:
            res.fail("%s:%s:refused" % (name, kind), "%s: refused from %s: %s: %s" % (label, kind, type(err).__name__, err))
            continue
        res.ev("read from " + kind)
        if rng.random() < .4:
            touch(p, rng)
        if kind in UNKNOWN:
            # Fields which are read late are cut when the end of the input is seen
            if rng.random() < .6:
                try:
                    for f in p:
                        pass
                except Exception as err:
                    res.fail("%s:%s:%s" % (name, kind, type(err).__name__), "%s from %s: %s: %.300s (%s)" % (
                        label, kind, type(err).__name__, err, where(err)))
                    continue
            p.stream.sizeGe(8 * len(data) + 8)
        got = tree_of(p, limit)
        if kind in UNKNOWN:
            full = len(got) >= limit or len(want_all) >= limit
            got, want = ([x for x in tree if not UNREAD(x[0])] for tree in (got, want_all))
            if full:
                n = min(len(got), len(want))
                got, want = got[:n], want[:n]
        else:
            want = want_all
        res.evals += len(got)
        res.ev("fields compared", len(got))
        if got != want:
            k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            a, b = (got[k] if k < len(got) else None), (want[k] if k < len(want) else None)
            res.fail("%s:%s:%s" % (name, kind, generic((b or a)[0])), "%s from %s: field %d: %.300r instead of %.300r" % (
                label, kind, k, a, b))
            continue
        if want_state is None:
            for f in ref:
                pass
            want_state, want_meta = state_of(ref), meta_of(cls(StringInputStream(data), validate=True))
        for f in p:
            pass
        for (what, a), (_, b) in zip(state_of(p), want_state):
            res.expect(a == b, "%s:%s:%s" % (name, kind, what), "%s from %s: %s is %.200r instead of %.200r" % (
                label, kind, what, a, b))
        try:
            got = meta_of(cls(source(kind, data, rng, tmp), validate=True))
        except Exception as err:
            got = type(err).__name__
        if kind in UNKNOWN and got and want_meta:
            # computed with the size of the file
            missing = [x for x in want_meta if x not in got]
            if missing and all(x.startswith("- bit_rate: ") for x in missing):
                got = want_meta
                res.ev("bit rate needs the size")
        res.expect(got == want_meta, "%s:%s:metadata" % (name, kind), lambda: "%s from %s: metadata %s instead of %s" % (
            label, kind, str([x for x in got or () if x not in (want_meta or ())])[:300],
            str([x for x in want_meta or () if x not in (got or ())])[:300]))
        res.ev("metadata compared")


def case(c):
    kind, name, k = c
    res = Result()
    rng = rng_for(PID, SEED, kind, name, k)
    with tempfile.TemporaryDirectory(dir=tmp_root()) as tmp:
        if kind == "sample":
            data = corpus.load(name)
            path = os.path.join(tmp, name)
            with open(path, "wb") as fp:
                fp.write(data)
            p = guessParser(FileInputStream(path))
            if p is None:
                return res
            cls, limit = type(p), 700
        else:
            g = gen.make(name, rng)
            data, cls, limit = g.data, BY_ID[g.parser], 4000
        kinds = [rng.choice(KNOWN)]
        if kind == "damage":
            data, desc = corpus.mutate(rng, data)
            label = "%s #%s (%s)" % (name, k, desc)
            kinds = [x for x in ("part", "field", "concatenation") if rng.random() < .6] or ["part"]
            res.ev("damaged files")
        else:
            label = "%s #%s" % (name, k)
            if cls.PARSER_TAGS["id"] not in NEED_SIZE:
                kinds.append(rng.choice(UNKNOWN))
            res.ev("files: " + (name if kind == "gen" else "samples"))
        if len(data) < 2:
            return res
        res.seen(data)
        compare(res, label, name, cls, data, kinds, rng, tmp, limit)
        if k == 0:
            res.samples.append("%s: %d bytes from %s" % (label, len(data), "+".join(kinds)))
    return res


def main():
    c = check.Check(PID, "file, by content; the source it is read from, the accesses before the comparison",
                    required=["read from " + k for k in KNOWN + UNKNOWN] + ["fields compared", "metadata compared",
                                                                          "damaged files", "refused", "files: samples"])
    names = gen.names()
    cases = [("sample", n, k) for k in range(c.n(2, 10)) for n in corpus.names()]
    for k in range(c.n(60, 1500)):
        cases += [("gen", name, k) for name in names]
        cases += [("damage", name, k) for name in names]
    c.run(case, cases, timeout=240, deadline=c.deadline(110, 3000), on_timeout=c.note_timeout)
    for name in names:
        if not c.events.get("files: " + name):
            c.problems.append("no file %s was read" % name)
    return c.finish()


if __name__ == "__main__":
    raise SystemExit(main())
