"""C11: sub-file search.

Hosts are built from random surroundings and embedded files: generated ones
(vlib.gen, whose size is known) and sample files whose length is the size
defined by their format, at offsets around the slice boundaries of the search.
Every search is judged by two oracles:

- ground truth: each embedded file which starts in the range is reported at its
  exact offset with its size;
- reference: a brute force scan of the magic numbers (overlapping, each byte
  offset), each candidate validated by the parser on the bytes from there.
  Skipped ranges follow the reported "skip" files.

The extracted files are compared with the host, the text printed with the
calls, the host is compared before and after."""
import contextlib
import io
import os
import re
import subprocess
import sys
import tempfile

from vlib import check, corpus, env, gen
from vlib.check import Result, rng_for
from vlib.env import SEED
from hachoir.parser import HachoirParserList
from hachoir.stream import FileInputStream, InputSubStream, StringInputStream
from hachoir.subfile import search
from hachoir.subfile.search import SearchSubfile

PID = "C11"
PARSERS = list(HachoirParserList.getInstance())
BY_ID = {p.getParserTags()["id"]: p for p in PARSERS}
# generated files which always start with a magic number of the search
ALWAYS = set("aiff ar asf au avi bmp bzip2 cab cda emf flac gif gzip ico mar midi mkv ogg png psd realaudio "
             "realmedia rpm swf tar tiff wav wmf xcf zip".split())
NEVER = {"mp3", "mpeg_ts", "pcx", "tga", "zlib"}
LINE = re.compile(r"\[\+\] File at (\d+)(?: size=(\d+) \(([^)]*)\))?: (.*?)(?: => (.*)| \(don't copy[^)]*\))?\Z", re.S)


def magics(parser):
    tags = parser.getParserTags()
    for m, o in tags.get("magic", ()):
        yield m, None, o // 8
    for m, o in tags.get("magic_regex", ()):
        yield None, re.compile(m, re.DOTALL), o // 8


def starts_with_magic(parser, data):
    for m, r, o in magics(parser):
        if m is not None and data[o:o + len(m)] == m or r is not None and r.match(data, o):
            return o + (len(m) if m is not None else r.match(data, o).end() - o)
    return None


def candidates(parsers, data, start, end):
    """{offset: [parser]} of every magic number of data[:end] whose file
    starts at start or later"""
    found = {}
    for parser in parsers:
        for m, r, o in magics(parser):
            pos = max(start + o, 0)
            while 1:
                if m is not None:
                    pos = data.find(m, pos, end)
                    if pos < 0:
                        break
                else:
                    match = r.search(data, pos, end)
                    if not match:
                        break
                    pos = match.start()
                off = pos - o
                if start <= off < end and parser not in found.setdefault(off, []):
                    found[off].append(parser)
                pos += 1
    return {k: v for k, v in found.items() if v}


def valid(parser, stream, offset):
    try:
        return parser(InputSubStream(stream, offset * 8), validate=True)
    except Exception:
        return None


@contextlib.contextmanager
def quiet(stdout, stderr):
    """redirect the outputs, also of a module which imported stderr"""
    names = [n for n in ("stderr", "stdout") if hasattr(search, n)]
    saved = [getattr(search, n) for n in names]
    for n in names:
        setattr(search, n, stderr if n == "stderr" else stdout)
    try:
        with contextlib.redirect_stdout(stdout), contextlib.redirect_stderr(stderr):
            yield
    finally:
        for n, v in zip(names, saved):
            setattr(search, n, v)


class Watched(SearchSubfile):
    def __init__(self, *a, **kw):
        SearchSubfile.__init__(self, *a, **kw)
        self.reports = []

    def processParser(self, offset, parser):
        self.reports.append((offset, parser.getParserTags()["id"], parser.content_size, parser.filename_suffix,
                             parser.getParserTags().get("subfile")))
        SearchSubfile.processParser(self, offset, parser)


def filler(rng, n):
    r = rng.random()
    if r < .4:
        return rng.randbytes(n)
    if r < .6:
        return bytes([rng.choice((0, 255, 32, 0x50))]) * n
    if r < .8:
        return (b"The quick brown fox jumps over the lazy dog. " * (n // 45 + 1))[:n]
    # pieces of magic numbers
    out = b""
    pool = [m for p in PARSERS for m, r_, o in magics(p) if m]
    while len(out) < n:
        m = rng.choice(pool)
        out += m[:rng.randint(1, len(m))] + rng.randbytes(rng.randint(0, 20))
    return out[:n]


def piece(rng):
    """(label, parser id, data, size (min, max) or None)"""
    if rng.random() < .2:
        name = rng.choice(sorted(SAMPLE_ID))
        data = corpus.load(name)
        if len(data) < 300000:
            return name, SAMPLE_ID[name], data, (len(data), len(data))
    while 1:
        name = rng.choice(NAMES)
        g = gen.make(name, rng)
        if len(g.data) > 100000:
            continue
        size = g.size
        if isinstance(size, int):
            size = size, size
        return name, g.parser, g.data, size


NAMES = [n for n in gen.names() if n not in NEVER]


# sample files whose length is the size that their format defines
SAMPLE_ID = {
    "7zip.chm": "chm", "archive.7z": "7zip", "article01.bmp": "bmp", "audio_8khz_8bit_ulaw_4s39.au": "sun_next_snd",
    "cd_0008_5C48_1m53s.cda": "riff", "cercle.exe": "exe", "claque-beignet.swf": "swf", "dontyou.xm": "fasttracker2",
    "eula.exe": "exe", "flashmob.mkv": "matroska", "georgia.cab": "cab", "globe.wmf": "wmf", "gps.jpg": "jpeg",
    "green_fire.jpg": "jpeg", "hachoir-core.rar": "rar", "hachoir.org.sxw": "zip", "india_map.gif": "gif",
    "indiana.mid": "midi", "interlude_david_aubrun.ogg": "ogg", "jpeg.exif.photoshop.jpg": "jpeg",
    "kde_click.wav": "riff", "kde_haypo_corner.bmp": "bmp", "logo-kubuntu.png": "png", "pikachu.wmf": "wmf",
    "radpoor.doc": "ole2", "usa_railroad.jpg": "jpeg", "wormux_32x32_16c.ico": "ico"}


def build(rng, slice_size):
    """(host, [(offset, label, parser id, length, size)])"""
    host = b""
    files = []
    for _ in range(rng.choice((0, 1, 1, 2, 3, 5))):
        label, pid, data, size = piece(rng)
        if len(host) + len(data) > 600000:
            break
        if rng.random() < .5:
            # near a slice boundary
            k = len(host) // slice_size + rng.randint(1, 2)
            need = starts_with_magic(BY_ID[pid], data) or 1
            off = k * slice_size + rng.choice((0, -1, 1, -need, -need + 1, -need // 2, -rng.randint(0, 600),
                                               rng.randint(0, 600), -len(data), -32768))
            gap = off - len(host)
            if not 0 <= gap < 200000:
                gap = rng.choice((0, 1, 100))
        else:
            gap = rng.choice((0, 0, 1, 7, 512, rng.randint(0, 5000)))
        host += filler(rng, gap)
        files.append((len(host), label, pid, data, size))
        host += data
    tail = rng.choice((0, 0, 1, 100, rng.randint(0, 70000)))
    host += filler(rng, tail)
    if not host:
        host = filler(rng, rng.randint(1, 2000))
    return host, files


def choose(rng, files):
    """(categories, ids) of the parsers which are searched"""
    r = rng.random()
    if r < .5:
        return None, None
    ids = rng.sample(sorted(BY_ID), rng.randint(1, 4)) + [f[2] for f in files if rng.random() < .7]
    cats = rng.sample(sorted({p.getParserTags().get("category", "") for p in PARSERS} - {""}), rng.randint(1, 3))
    if r < .7:
        return None, ids
    if r < .85:
        return cats, None
    return cats, ids


def describe(files):
    return ", ".join("%s at %u (%u bytes)" % (f[1], f[0], len(f[3])) for f in files)


def case(seed):
    kind, n = seed
    if kind == "cli":
        return cli_case(n)
    res = Result()
    rng = rng_for(PID, SEED, kind, n)
    slice_size = rng.choice((65536, 65536, 65536, 512, 4096, 1 << 20))
    host, files = build(rng, slice_size if slice_size < 1 << 20 else 65536)
    res.seen(host)
    cats, ids = choose(rng, files)
    start, size = 0, None
    if rng.random() < .4:
        marks = [0, len(host)] + [f[0] + d for f in files for d in (-1, 0, 1, len(f[3]))]
        start = min(max(rng.choice(marks + [rng.randint(0, len(host))]), 0), len(host))
        if rng.random() < .6:
            size = min(max(rng.choice(marks + [rng.randint(0, len(host))]) - start, 0), len(host) + 10)
            if rng.random() < .3:
                size += rng.choice((1, 5, 20))
    end = len(host) if size is None else min(len(host), start + size)
    label = "search #%s [%s], range %s-%s, parsers %s %s, slice %s" % (
        n, describe(files), start, end, cats, ids, slice_size)
    selected = [p for p in PARSERS if not (cats or ids) or p.getParserTags().get("category") in (cats or ())
                or p.getParserTags()["id"] in (ids or ())]
    with tempfile.TemporaryDirectory(dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None) as tmp:
        on_disk = rng.random() < .5
        path = os.path.join(tmp, "host")
        if on_disk:
            with open(path, "wb") as fp:
                fp.write(host)
            stream = FileInputStream(path)
        else:
            stream = StringInputStream(host)
        s = Watched(stream, start, size)
        s.slice_size = slice_size * 8
        s.verbose = rng.random() < .5
        outdir = os.path.join(tmp, "out")
        extract = rng.random() < .5
        if extract:
            s.setOutput(outdir)
        stdout, stderr = io.StringIO(), io.StringIO()
        try:
            with quiet(stdout, stderr):
                s.loadParsers(categories=cats, parser_ids=ids)
                ok = s.main()
        except Exception as err:
            res.fail("search-error", "%s: %s: %s" % (label, type(err).__name__, err))
            return res
        if not ok:
            if "Memory error" in stderr.getvalue():
                res.ev("searches stopped by the memory limit")
                return res
            res.fail("search-failed", "%s: main() returned False" % label)
            return res
        res.ev("searches")
        judge(res, label, host, files, selected, start, end, s.reports)
        if on_disk:
            res.expect(open(path, "rb").read() == host, "host-modified", label)
        lines = split_lines(stdout.getvalue())
        judge_text(res, label, host, end, s.reports, lines, outdir if extract else None)
    res.ev("reports", len(s.reports))
    if len(res.samples) < 1 and files and n % 50 == 0:
        res.samples.append("%s: %s" % (label, [(o // 8, i, c and c // 8) for o, i, c, _, _ in s.reports][:6]))
    return res


def split_lines(text):
    return re.findall(r"^\[\+\] File at .*?(?=^\[\+\] File at |\Z)", text, re.S | re.M)


def judge(res, label, host, files, selected, start, end, reports):
    offsets = [r[0] for r in reports]
    res.expect(all(o % 8 == 0 for o in offsets) and offsets == sorted(set(offsets)), "order",
               lambda: "%s: offsets %s" % (label, [o // 8 for o in offsets][:20]))
    res.expect(all(start * 8 <= o < end * 8 for o in offsets), "out-of-range",
               lambda: "%s: offsets %s" % (label, [o // 8 for o in offsets][:20]))
    by_off = {r[0] // 8: r for r in reports}
    # ground truth
    skipped = []
    for o, pid, csize, _, sub in reports:
        if sub == "skip" and csize is not None:
            skipped.append((o // 8, (o + csize) / 8))
    sel_ids = {p.getParserTags()["id"] for p in selected}
    for off, name, pid, data, size in files:
        if pid not in sel_ids or not start <= off < end:
            continue
        need = starts_with_magic(BY_ID[pid], data)
        if need is None:
            if name in ALWAYS or name in SAMPLE_ID:
                res.fail("no-magic:" + name, "%s: %s has no magic number of its parser %s" % (label, name, pid))
            continue
        if off + need > end or any(a < off < b for a, b in skipped):
            continue
        rep = by_off.get(off)
        res.ev("embedded files")
        res.ev("embedded " + pid)
        if not res.expect(rep is not None, "missed:" + pid, "%s: %s at %u is not reported" % (label, name, off)):
            continue
        if not res.expect(rep[1] == pid, "other-parser:" + pid,
                          "%s: %s at %u is reported as %s" % (label, name, off, rep[1])):
            continue
        if size is not None:
            res.ev("sizes")
            res.expect(rep[2] is not None and size[0] * 8 <= rep[2] <= size[1] * 8, "size:" + pid,
                       "%s: %s at %u: size %s instead of %s" % (
                           label, name, off, rep[2] if rep[2] is None else rep[2] / 8, size))
    # reference
    stream = StringInputStream(host)
    found = candidates(selected, host, start, end)
    res.ev("candidates", len(found))
    next_off = 0
    for off in sorted(found):
        if off * 8 < next_off:
            continue
        rep = by_off.get(off)
        if rep is not None:
            res.expect(any(p.getParserTags()["id"] == rep[1] for p in found[off]), "reference-parser:" + rep[1],
                       "%s: %s reported at %u, magic numbers of %s" % (
                           label, rep[1], off, [p.getParserTags()["id"] for p in found[off]]))
            p = valid(BY_ID[rep[1]], stream, off)
            if res.expect(p is not None, "reference-invalid:" + rep[1],
                          "%s: %s reported at %u does not validate" % (label, rep[1], off)):
                size = p.content_size
                res.expect(size == rep[2], "reference-size:" + rep[1], "%s: %s at %u: size %s, then %s" % (
                    label, rep[1], off, rep[2], size))
            if rep[4] == "skip" and rep[2] is not None:
                next_off = off * 8 + rep[2]
        else:
            good = [p.getParserTags()["id"] for p in found[off] if valid(p, stream, off)]
            res.expect(not good, "reference-missed:" + "".join(good[:1]),
                       "%s: valid file %s at %u is not reported" % (label, good, off))
    for off in by_off:
        res.expect(off in found, "reference-extra:" + by_off[off][1],
                   "%s: %s reported at %u, where there is no magic number" % (label, by_off[off][1], off))


def judge_text(res, label, host, end, reports, lines, outdir):
    if not res.expect(len(lines) == len(reports), "lines",
                      "%s: %u lines for %u files" % (label, len(lines), len(reports))):
        return
    written = []
    for (off, pid, csize, suffix, _), line in zip(reports, lines):
        m = LINE.match(line.rstrip("\n"))
        if not res.expect(m is not None, "line", "%s: line %r" % (label, line[:200])):
            continue
        res.expect(int(m.group(1)) == off // 8 and (m.group(2) is None) == (csize is None)
                   and (csize is None or int(m.group(2)) == csize // 8), "line-values",
                   "%s: line %r for %s at %u, %s bits" % (label, line[:100], pid, off // 8, csize))
        name = m.group(5)
        whole = off == 0 and csize == len(host) * 8
        if whole and end < len(host):
            if name is not None:
                written.append(os.path.basename(name))
            continue
        if outdir is None or not csize or whole or csize // 8 >= 100 * 1024 * 1024:
            res.expect(name is None, "extracted-anyway", "%s: line %r" % (label, line[:200]))
            continue
        if not res.expect(name is not None, "not-extracted", "%s: line %r" % (label, line[:200])):
            continue
        written.append(os.path.basename(name))
        res.expect(os.path.dirname(name) == outdir and name.endswith(suffix or ""), "extracted-name",
                   "%s: %s written in %r" % (label, pid, name))
        got = open(os.path.join(outdir, os.path.basename(name)), "rb").read()
        want = host[off // 8:off // 8 + csize // 8]
        res.ev("extracted files")
        if len(want) == csize // 8:
            res.expect(got == want, "extracted:" + pid, "%s: %s at %u: %u bytes extracted instead of %u, or others" % (
                label, pid, off // 8, len(got), len(want)))
        else:
            res.expect(want.startswith(got), "extracted-cut:" + pid, "%s: %s at %u" % (label, pid, off // 8))
    if outdir is not None:
        files = sorted(os.listdir(outdir)) if os.path.isdir(outdir) else []
        res.expect(files == sorted(set(written)) and len(written) == len(set(written)), "output-directory",
                   lambda: "%s: files %s, reported %s" % (label, files[:20], written[:20]))


def cli_case(n):
    """The command line tool: same reports as the class, files left alone."""
    res = Result()
    rng = rng_for(PID, SEED, "cli", n)
    host, files = build(rng, 65536)
    res.seen(host)
    with tempfile.TemporaryDirectory(dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None) as tmp:
        outdir = os.path.join(tmp, rng.choice(("out", ".")))
        start, size = 0, None
        args = []
        if rng.random() < .4:
            start = rng.randint(0, len(host))
            args.append("--offset=%u" % start)
        if rng.random() < .4:
            size = rng.randint(0, len(host))
            args.append("--size=%u" % size)
        cats, ids = choose(rng, files)
        if cats:
            args.append("--category=" + ",".join(cats))
        if ids:
            args.append("--parser=" + ",".join(ids))
        if rng.random() < .5:
            args.append("--quiet")
        extract = rng.random() < .7
        s = Watched(StringInputStream(host), start, size)
        s.verbose = False
        s.loadParsers(categories=cats, parser_ids=ids)
        with quiet(io.StringIO(), io.StringIO()):
            if not s.main():
                return res
        # the searched file and another one may have the names of extracted files
        taken = ["file-%04u%s" % (i + 1, r[3] or "") for i, r in enumerate(r for r in s.reports if r[2])]
        path = os.path.join(tmp, rng.choice(taken[:4] + ["host.bin"]))
        other = os.path.join(tmp, rng.choice([t for t in taken if t != os.path.basename(path)] + ["other"]))
        for p, d in ((path, host), (other, b"other file")):
            with open(p, "wb") as fp:
                fp.write(d)
        argv = [sys.executable, "-m", "hachoir.subfile"] + args + [path] + ([outdir] if extract else [])
        r = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=tmp, timeout=200,
                           env=dict(os.environ, PYTHONPATH=env.REPO, PYTHONIOENCODING="utf-8",
                                    PYTHONDONTWRITEBYTECODE="1"))
        label = "hachoir-subfile #%s %s [%s]" % (n, " ".join(args), describe(files))
        if b"Memory error" in r.stderr:
            res.ev("searches stopped by the memory limit")
            return res
        res.ev("command lines")
        res.expect(r.returncode == 0, "cli-status", "%s: status %s, %s" % (label, r.returncode, r.stderr[-300:]))
        res.expect(open(path, "rb").read() == host, "host-modified", label)
        res.expect(open(other, "rb").read() == b"other file", "other-file-overwritten", label)
        lines = split_lines(r.stdout.decode("utf-8", "surrogateescape"))
        known = {os.path.basename(path), os.path.basename(other)} if os.path.basename(outdir) == "." else set()
        listed = sorted(set(os.listdir(outdir)) - known) if extract and os.path.isdir(outdir) else []
        judge_cli(res, label, host, s.reports, lines, outdir if extract else None, listed)
    return res


def judge_cli(res, label, host, reports, lines, outdir, listed):
    if not res.expect(len(lines) == len(reports), "cli-lines",
                      "%s: %u lines instead of %u" % (label, len(lines), len(reports))):
        return
    names = []
    for (off, pid, csize, suffix, _), line in zip(reports, lines):
        m = LINE.match(line.rstrip("\n"))
        if not res.expect(m and int(m.group(1)) == off // 8, "cli-line", "%s: %r for %s at %u" % (
                label, line[:200], pid, off // 8)):
            continue
        res.expect((int(m.group(2)) * 8 if m.group(2) else None) == csize, "cli-size", "%s: %r" % (label, line[:200]))
        if m.group(5):
            names.append(os.path.basename(m.group(5)))
            got = open(os.path.join(outdir, names[-1]), "rb").read()
            want = host[off // 8:off // 8 + csize // 8]
            res.ev("extracted files")
            if len(want) == csize // 8:
                res.expect(got == want, "cli-extracted", "%s: %s at %u" % (label, pid, off // 8))
    if outdir is not None:
        res.expect(listed == sorted(names), "cli-output-directory",
                   lambda: "%s: files %s, reported %s" % (label, listed[:10], names[:10]))


def main():
    c = check.Check(PID, "Hosts of 0-5 embedded generated or sample files around slice boundaries, with ranges and "
                    "parser selections; a distinct host counts once.",
                    required=("searches", "embedded files", "sizes", "candidates", "extracted files",
                              "command lines", "embedded zip", "embedded jpeg", "embedded tar", "embedded ogg"))
    cases = [("search", n) for n in range(c.n(2800, 25000))] + [("cli", n) for n in range(c.n(150, 1000))]
    c.rng("order").shuffle(cases)
    c.run(case, cases, timeout=240, deadline=c.deadline(300, 780), on_timeout=c.note_timeout)
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
