"""C18: grep reports exactly the matching string fields.

Oracle: an independent depth-first reading of another instance of the same
tree, filtered by the search rule; compared with what Grep subclasses receive,
with what ConsoleGrep prints and with the output of the hachoir-grep process."""
import contextlib
import io
import os
import struct
import zlib
import re
import shutil
import subprocess
import tempfile

from vlib import check, corpus, env, sources, tree
from vlib.check import Result, rng_for
from vlib.env import SEED
from hachoir.core.tools import makePrintable
from hachoir.field.string_field import GenericString
from hachoir.grep import ConsoleGrep, Grep
from hachoir.parser import createParser

PID = "C18"
LIMIT = 60000


class Recorder(Grep):
    def __init__(self, pattern, case):
        Grep.__init__(self)
        self.case_sensitive = case
        self.pattern = pattern if case or not pattern else pattern.lower()
        self.out = []

    def onMatch(self, field):
        self.out.append((field.path, field.absolute_address, field.size, field.value))


def strings(root):
    """Every string field, in tree order; None when the tree is too big."""
    out = []
    n = others = 0
    stack = [iter(root)]
    while stack:
        for f in stack[-1]:
            n += 1
            if n > LIMIT:
                return None, 0
            if f.is_field_set:
                stack.append(iter(f))
                break
            if isinstance(f, GenericString):
                out.append((f.path, f.absolute_address, f.size, f.value))
            else:
                others += 1
        else:
            stack.pop()
    return out, others


def wanted(rows, pattern, case):
    for row in rows:
        v = row[3]
        if v is None or v == "":
            continue
        if pattern:
            if case:
                if v.find(pattern) < 0:
                    continue
            elif v.lower().find(pattern.lower()) < 0:
                continue
        yield row


def patterns(rng, rows):
    vals = [r[3] for r in rows if r[3]]
    out = [None]
    for _ in range(5):
        r = rng.random()
        if vals and r < .8:
            v = rng.choice(vals)
            a = rng.randrange(len(v))
            odd = [i for i, ch in enumerate(v) if ord(ch) > 127]
            if odd and rng.random() < .6:
                a = rng.choice(odd)
            p = v[a:a + rng.choice((1, 1, 2, 3, 8, 1000))]
            if rng.random() < .4:
                p = rng.choice((p.swapcase(), p.upper(), p.lower(), p.title()))
        else:
            p = rng.choice(("a", "e", " ", "\n", "\0", "IDAT", "Artist", "nosuchtext", ".", "[", "\xe9", "A.", "a*", ":"))
        if p:
            out.append(p)
    return out


def api(res, rng, src):
    try:
        root = src.open()
    except Exception:
        return
    if root is None:
        return
    rows, others = strings(root)
    if rows is None:
        return
    res.ev("trees")
    res.ev("strings", len(rows))
    res.ev("unreadable strings", sum(1 for r in rows if r[3] is None))
    res.ev("strings not on a byte", sum(1 for r in rows if r[1] % 8))
    res.ev("other fields", others)
    for p in patterns(rng, rows):
        for case in (True, False):
            g = Recorder(p, case)
            try:
                g.grep(src.open())
            except Exception as err:
                res.fail("grep:%s:%s" % (type(err).__name__, tree.where(err)),
                         "%s: grep(%r, case=%s) raises %r" % (src.label, p, case, err))
                continue
            exp = list(wanted(rows, p, case))
            compare(res, g.out, exp, "%s: Grep %r case=%s" % (src.label, p, case), "api")
            if exp and p:
                res.ev("searches with matches")
            if exp and len(exp) < len(rows):
                res.seen(len(exp), exp[0][0], exp[-1][0], case, p)
            res.ev("matches", len(exp))


def compare(res, got, exp, label, key):
    res.evals += 1
    if got == exp:
        return
    miss = [e for e in exp if e not in got]
    extra = [g for g in got if g not in exp]
    if miss:
        res.fail(key + ":missing", "%s: not reported: %r (%d of %d)" % (label, miss[0], len(miss), len(exp)))
    elif extra:
        res.fail(key + ":extra", "%s: reported but should not be: %r" % (label, extra[0]))
    elif len(got) != len(exp):
        res.fail(key + ":twice", "%s: %d reports, expected %d" % (label, len(got), len(exp)))
    else:
        i = [a == b for a, b in zip(got, exp)].index(False)
        res.fail(key + ":order", "%s: report %d is %r, expected %r" % (label, i, got[i], exp[i]))


def line(row, opt, filename, charset):
    path, addr, _, value = row
    text = []
    if opt["filename"]:
        text.append(makePrintable(filename, charset))
    if opt["address"]:
        text.append(str(addr // 8) if addr % 8 == 0 else "%d.%d" % divmod(addr, 8))
    if opt["path"]:
        text.append(path)
    if opt["value"]:
        # printable ASCII text is printed as it is
        text.append(value if value.isascii() and value.isprintable() else makePrintable(value, charset))
    return ":".join(text) if text else None


def printed(rows, size, opt, filename, charset):
    out, pct = [], []
    for r in rows:
        ln = line(r, opt, filename, charset)
        if ln is None:
            continue
        out.append(ln)
        if opt["percent"]:
            pct.append("[%.1f%%] " % (r[1] * 100.0 / size))
    return out, pct


NAMES = ("stra\xdfe.txt", "\xb5Torrent", "\xc4rger \xff", "\xdeorn \xd0", "na\xefve", "\xd8l.TXT", "plain.doc")


def named_gzip(rng):
    """A gzip file whose name and comment have letters with unusual cases"""
    body = zlib.compressobj(9, zlib.DEFLATED, -15)
    body = body.compress(b"hello") + body.flush()
    return (b"\x1f\x8b\x08\x18" + struct.pack("<I", rng.randrange(1 << 31)) + b"\x00\x03"
            + rng.choice(NAMES).encode("latin1") + b"\0" + rng.choice(NAMES).encode("latin1") + b"\0"
            + body + struct.pack("<II", zlib.crc32(b"hello"), 5))


def make_file(rng, tmp, i):
    """A file on disk; returns (filename, rows, root size) or None."""
    r = rng.random()
    if r < .15:
        name, data, kind = "names.gz", named_gzip(rng), "names"
    elif r < .5:
        name = rng.choice(corpus.names())
        data = corpus.load(name)
        if len(data) > 60000:
            data = data[:60000]
        kind = "corpus"
    else:
        c = tree.hostile_case(rng, forced=0, rand=0)
        name, data = c["name"], c["data"]
        kind = "hostile"
    fn = os.path.join(tmp, "%d_%s" % (i, name))
    with open(fn, "wb") as fp:
        fp.write(data)
    try:
        p = createParser(fn)
    except Exception:
        return None
    if p is None:
        return fn, None, None, kind
    with p:
        rows, _ = strings(p)
        size = p.size
    if rows is None or len(rows) > 5000:
        return None
    return fn, rows, size, kind


def console(res, rng, tmp):
    f = make_file(rng, tmp, 0)
    if f is None or f[1] is None:
        return
    fn, rows, size, kind = f
    for p in patterns(rng, rows)[:4]:
        case = rng.random() < .5
        opt = {k: rng.random() < .5 for k in ("filename", "address", "path", "value", "percent")}
        g = ConsoleGrep()
        g.display_filename = opt["filename"]
        g.display_address = opt["address"]
        g.display_path = opt["path"]
        g.display_value = opt["value"]
        g.display_percent = opt["percent"]
        o, e = io.StringIO(), io.StringIO()
        label = "console %s %r case=%s %s" % (os.path.basename(fn), p, case, sorted(k for k in opt if opt[k]))
        try:
            with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
                g.searchFile(fn, p, case)
        except Exception as err:
            res.fail("console:%s:%s" % (type(err).__name__, tree.where(err)), "%s raises %r" % (label, err))
            continue
        exp, pct = printed(list(wanted(rows, p, case)), size, opt, fn, g.term_charset)
        got = o.getvalue()
        res.expect(got == "".join(x + "\n" for x in exp), "console:text",
                   lambda: "%s: printed %r..., expected %r..." % diff(label, got.split("\n"), exp + [""]))
        res.expect(e.getvalue() == "".join(pct), "console:percent",
                   lambda: "%s: percentages %r, expected %r" % (label, e.getvalue()[:80], "".join(pct)[:80]))
        res.ev("console searches")
        res.ev("lines", len(exp))
        if exp:
            res.seen("console", sorted(opt.items()), exp[0], len(exp))


def diff(label, a, b):
    for i in range(max(len(a), len(b))):
        x, y = a[i:i + 2], b[i:i + 2]
        if x[:1] != y[:1]:
            return label, x, y
    return label, a[:1], b[:1]


def process(res, rng, tmp):
    nfiles = rng.choice((1, 1, 2, 3))
    files = []
    for i in range(nfiles):
        f = make_file(rng, tmp, i)
        if f is None:
            return
        files.append(f)
    allrows = [r for f in files if f[1] for r in f[1]]
    p = rng.choice(patterns(rng, allrows))
    if p is not None and (p.startswith("-") or "\0" in p or not p.isascii()):
        p = "a"
    opt = {k: rng.random() < .5 for k in ("no-addr", "no-value", "path", "percent", "case")}
    args = ["--quiet"] + ["--" + k for k in sorted(opt) if opt[k]]
    args += ["--all"] if p is None else [p]
    rng.shuffle(args[:-1])
    args += [f[0] for f in files]
    r = subprocess.run([env.PYTHON, "-c", "from hachoir.grep import main; main()"] + args, env=env.child_env(),
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=tmp)
    show = {"filename": nfiles > 1, "address": not opt["no-addr"], "value": not opt["no-value"], "path": opt["path"],
            "percent": opt["percent"]}
    exp, pct = [], []
    for fn, rows, size, _ in files:
        if rows is None:
            continue
        a, b = printed(list(wanted(rows, p, opt["case"])), size, show, fn, "UTF-8")
        exp += a
        pct += b
    label = "hachoir-grep %s" % " ".join(args)
    got = r.stdout.decode("utf-8").split("\n")
    res.expect(got == exp + [""], "process:text", lambda: "%s: printed %r, expected %r" % diff(label, got, exp + [""]))
    bad = any(f[1] is None for f in files)
    res.expect((r.returncode != 0) == bad, "process:status",
               lambda: "%s: exit status %d, unreadable file: %s\n%s" % (label, r.returncode, bad, r.stderr[-500:]))
    # errors found while parsing are logged there as well
    err = "".join(re.findall(r"\[-?\d+\.\d%\] ", r.stderr.decode("utf-8", "replace")))
    if not bad:
        res.expect(err == "".join(pct), "process:percent",
                   lambda: "%s: stderr %r, expected %r" % (label, err[:300], "".join(pct)[:300]))
    res.ev("processes")
    res.ev("processes with several files", nfiles > 1)
    if exp:
        res.seen("process", sorted(opt.items()), exp[0], len(exp))
        res.ev("processes with matches")
        if len(res.samples) < 1:
            res.samples.append("%s -> %d lines, first %r" % (label, len(exp), exp[0]))


def case(arg):
    kind, n = arg
    rng = rng_for(PID, SEED, kind, n)
    res = Result()
    if kind == "corpus":
        names = corpus.names()
        api(res, rng, sources.corpus_src(names[n % len(names)], cap=300000))
        return res
    if kind == "synth":
        for _ in range(8):
            api(res, rng, sources.synth_src(rng))
        return res
    if kind == "hostile":
        for _ in range(2):
            api(res, rng, sources.hostile_src(rng))
        return res
    tmp = tempfile.mkdtemp(prefix="c18-")
    try:
        if kind == "console":
            for _ in range(3):
                console(res, rng, tmp)
        else:
            process(res, rng, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return res


def main():
    c = check.Check(PID, "one search: (switches, number of matches, first and last match, pattern)",
                    required=("trees", "strings", "unreadable strings", "searches with matches", "console searches",
                              "processes with matches", "processes with several files"))
    c.assumptions = ["the text printed for a value with unprintable or non-ASCII characters is makePrintable()'s, "
                     "which C16 decides"]
    k = c.n(1, 20)
    cases = [("corpus", n) for n in range(len(corpus.names()))]
    for n in range(120 * k):
        cases += [("synth", 2 * n), ("synth", 2 * n + 1), ("hostile", n), ("console", n), ("process", n)]
    c.run(case, cases, timeout=240, deadline=c.deadline(75, 900), on_timeout=c.note_timeout)
    return c.finish()


if __name__ == "__main__":
    raise SystemExit(main())
