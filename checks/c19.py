"""C19: the command line tools are read-only, deterministic, treat each file
independently and exit with an honest status.

Each execution is a command line of a tool in a process of its own: a fork of a
process which imported hachoir (its main() is called), or a new interpreter.
Monitors of each execution:
  input     bytes, names and modification times of the input files, and the
            other files which appear
  end       main() ends by returning or with SystemExit, never by another exception
  status    the status is the one which the library predicts for the files
  output    what the library reports: metadata lines, strings with the pattern,
            fields; the output for several files is made of the outputs for each
  process   a new interpreter with another hash seed, locale, directory gives
            the same bytes and the same status
"""
import hashlib
import io
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

from vlib import check, corpus, env, gen, sources
from vlib.check import Result, rng_for
from vlib.env import SEED
from vlib.formats import tmp_root
import hachoir.core.config as hconfig
import hachoir.core.i18n as i18n
from hachoir.core.cmd_line import displayVersion  # noqa
from hachoir.core.log import log
from hachoir.core.tools import makePrintable
from hachoir.field import isString
from hachoir.metadata import config as mconfig
from hachoir.metadata import extractMetadata
from hachoir.parser import createParser, HachoirParserList
import hachoir.grep
import hachoir.listtool
import hachoir.metadata.csv
import hachoir.metadata.main
import hachoir.strip
import hachoir.subfile.main

PID = "C19"
TOOLS = {"metadata": hachoir.metadata.main.main, "grep": hachoir.grep.main, "list": hachoir.listtool.main,
         "strip": hachoir.strip.main, "subfile": hachoir.subfile.main.main, "csv": hachoir.metadata.csv.main}
MODULE = {"metadata": "hachoir.metadata.main", "grep": "hachoir.grep", "list": "hachoir.listtool",
          "strip": "hachoir.strip", "subfile": "hachoir.subfile.main", "csv": "hachoir.metadata.csv"}
STRIPPABLE = ("AuFile", "RiffFile", "PngFile", "JpegFile", "MpegAudioFile", "TarFile")
IDS = sorted(p.getParserTags()["id"] for p in HachoirParserList.getInstance() if p.getParserTags().get("category"))
DEFAULT_MAXLEN = mconfig.MAX_STR_LENGTH
UTF8, ASCII = ("utf-8", "strict"), ("ascii", "surrogateescape")
CPU = 60


class Run:
    """What one execution did"""
    code = out = err = end = None


def forked(tool, args, cwd, charset=UTF8):
    """main() of the tool in a fork of this process"""
    base = tempfile.mkdtemp(dir=os.path.dirname(cwd))
    paths = [os.path.join(base, n) for n in ("out", "err", "end")]
    pid = os.fork()
    if pid == 0:
        try:
            for fd, path in zip((1, 2), paths):
                f = os.open(path, os.O_WRONLY | os.O_CREAT, 0o600)
                os.dup2(f, fd)
            null = os.open("/dev/null", os.O_RDONLY)
            os.dup2(null, 0)
            os.chdir(cwd)
            resource.setrlimit(resource.RLIMIT_CPU, (CPU, CPU))
            sys.stdout = io.TextIOWrapper(io.FileIO(1, "w", closefd=False), *charset, line_buffering=True)
            sys.stderr = io.TextIOWrapper(io.FileIO(2, "w", closefd=False), charset[0], "backslashreplace",
                                          line_buffering=True)
            i18n.getTerminalCharset.value = "UTF-8" if charset is UTF8 else "ANSI_X3.4-1968"
            hconfig.quiet = hconfig.verbose = hconfig.debug = False
            log.use_print = True
            sys.argv[:] = ["hachoir-" + tool] + args
            end, code = "return", 0
            try:
                TOOLS[tool]()
            except SystemExit as err:
                end = "exit"
                code = err.code
                if isinstance(code, str):
                    sys.stderr.write(code + "\n")
                    code = 1
                code = int(code or 0)
            except BaseException as err:
                import traceback
                tb = traceback.extract_tb(err.__traceback__)
                last = [t for t in tb if "hachoir" in t.filename] or tb
                end = "%s: %s (%s:%s)" % (type(err).__name__, str(err)[:300], os.path.basename(last[-1].filename), last[-1].name)
                code = 1
            sys.stdout.flush()
            sys.stderr.flush()
            with open(paths[2], "w", encoding="utf-8", errors="backslashreplace") as fp:
                fp.write(end)
            os._exit(code & 255)
        except BaseException:
            os._exit(99)
    _, status = os.waitpid(pid, 0)
    r = Run()
    r.code = os.waitstatus_to_exitcode(status)

    def content(path):
        try:
            with open(path, "rb") as fp:
                return fp.read()
        except FileNotFoundError:
            return b""
    r.out, r.err, end = map(content, paths)
    r.end = end.decode("utf-8")
    shutil.rmtree(base)
    return r


def real(tool, args, cwd, **kw):
    """The tool in a new interpreter"""
    code = "import sys; sys.argv[0] = 'hachoir-%s'; from %s import main; main()" % (tool, MODULE[tool])
    envv = env.child_env(**kw)
    for k in [k for k, v in envv.items() if v is None]:
        del envv[k]
    p = subprocess.run([sys.executable, "-c", code] + args, cwd=cwd, env=envv, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
    r = Run()
    r.code, r.out, r.err = p.returncode, p.stdout, p.stderr
    r.end = "Traceback" if re.search(rb"^Traceback \(most recent call last\)", p.stderr, re.M) and p.returncode == 1 and \
        "--debug" not in args else "exit"
    return r


# -------------------------------------------------------------------- files

NAMES = ("a%d.bin", "file %d", "photo%d.jpg", "x%d", "caf\xe9%d.txt", "\u4e2d%d", "-%d", "tab\t%d", "%d'q\"", "new\nline%d")
BYTES = (b"latin\xe9%d", b"\xff\xfe%d.mp3")


class File:
    """An input file: name (relative to the directory), bytes or None"""

    def __init__(self, name, data, kind):
        self.name = name
        self.data = data
        self.kind = kind


def some_file(rng, tmp, i, special=.15, valid=None):
    r = rng.random()
    tpl = rng.choice(NAMES) if rng.random() < .6 else None
    name = (tpl or "f%d") % i
    if rng.random() < .05:
        name = (rng.choice(BYTES) % i).decode("utf-8", "surrogateescape")
    if name.startswith("-"):
        name = "./" + name
    if r < special:
        kind = rng.choice(("missing", "directory", "empty", "dangling", "text", "byte"))
        path = os.path.join(tmp, name)
        if kind == "directory":
            os.mkdir(path)
        elif kind == "dangling":
            os.symlink("nowhere", path)
        data = {"empty": b"", "text": b"hello world\n" * rng.randint(1, 50), "byte": b"x"}.get(kind)
        f = File(name, data, kind)
    elif r < special + .25:
        g = gen.make(rng.choice(gen.names()), rng)
        f = File(name, g.data, g.name)
    elif r < special + .6:
        names = corpus.names()
        while True:
            n = rng.choice(names)
            if len(corpus.load(n)) < 100000:
                break
        if tpl is None:
            f = File(n, corpus.load(n), n)
        else:
            f = File(name, corpus.load(n), n)
    else:
        s = sources.hostile_src(rng, forced=0, cap=24000)
        f = File(name, s.data, "damaged " + s.label[:60])
    if f.data is not None:
        with open(os.path.join(tmp, f.name), "wb") as fp:
            fp.write(f.data)
        os.utime(os.path.join(tmp, f.name), (1e9 + i, 1e9 + i))
    return f


def state_of(directory):
    out = {}
    for base, dirs, files in os.walk(directory):
        for d in dirs:
            out[os.path.relpath(os.path.join(base, d), directory)] = "dir"
        for n in files:
            path = os.path.join(base, n)
            if os.path.islink(path):
                out[os.path.relpath(path, directory)] = "link"
                continue
            st = os.stat(path)
            with open(path, "rb") as fp:
                out[os.path.relpath(path, directory)] = (st.st_mtime_ns, st.st_mode, hashlib.blake2b(fp.read()).hexdigest())
    return out


# ---------------------------------------------------- what the library says

class Lib:
    """The answer of the library for a file, obtained in a fork so that a file
    can't disturb the next ones"""

    def __init__(self, fn):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                resource.setrlimit(resource.RLIMIT_CPU, (CPU, CPU))
                hconfig.quiet = True
                log.use_print = False
                try:
                    v = fn()
                except Exception as err:
                    v = {"error": "%s: %s" % (type(err).__name__, str(err)[:200])}
                with os.fdopen(w, "w", encoding="utf-8", errors="surrogatepass") as fp:
                    json.dump(v, fp)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "r", encoding="utf-8", errors="surrogatepass") as fp:
            text = fp.read()
        os.waitpid(pid, 0)
        self.value = json.loads(text) if text else {"error": "died"}


def lib_parser(path, tags=None):
    try:
        return createParser(path, tags=tags)
    except Exception:
        return None


def lib_metadata(path, opts):
    p = lib_parser(path, [("id", opts["force"]), None] if opts.get("force") else None)
    if p is None:
        return {"ok": False}
    with p:
        if opts.get("type"):
            return {"ok": True, "lines": [p.description]}
        if opts.get("mime"):
            return {"ok": True, "lines": [p.mime_type]}
        mconfig.MAX_STR_LENGTH = opts.get("maxlen", DEFAULT_MAXLEN)
        mconfig.RAW_OUTPUT = bool(opts.get("raw"))
        try:
            m = extractMetadata(p, opts.get("quality", .5))
        except Exception:
            m = None
        if not m:
            return {"ok": False}
        lines = m.exportPlaintext(priority=int(opts.get("level", 9)) * 100 + 99, human=not opts.get("raw"))
        return {"ok": True, "lines": lines or ["(no metadata, priority may be too small)"]}


def lib_grep(path, opts):
    p = lib_parser(path)
    if p is None:
        return {"ok": False}
    out = []

    def visit(fs):
        stack = [(fs, iter(fs))]
        while stack:
            parent, it = stack[-1]
            for f in it:
                if f.is_field_set:
                    stack.append((f, iter(f)))
                    break
                if isString(f):
                    v = f.value
                    if not v:
                        continue
                    a, b = (opts["pattern"], v) if opts.get("case") else (opts["pattern"].lower(), v.lower())
                    if opts.get("all") or a in b:
                        out.append((f.absolute_address, f.path, v))
            else:
                stack.pop()
    with p:
        visit(p)
    return {"ok": True, "lines": out}


def lib_list(path, opts):
    from hachoir.stream import FileInputStream
    from hachoir.parser import guessParser
    tags = [("id", opts["parser"]), None] if opts.get("parser") else []
    try:
        p = guessParser(FileInputStream(path, offset=opts.get("offset", 0), size=opts.get("size"), tags=tags))
    except Exception:
        return {"ok": False}
    if p is None:
        return {"ok": False}
    out = []
    with p:
        stack = [(p, iter(p))]
        while stack:
            parent, it = stack[-1]
            for f in it:
                d = None
                if f.value is not None:
                    d = f.display
                out.append((len(stack) - 1, f.name, f.size, d if isinstance(d, str) or d is None else str(d)))
                if f.is_field_set:
                    stack.append((f, iter(f)))
                    break
            else:
                stack.pop()
    return {"ok": True, "lines": out}


def lib_strip(path, opts):
    p = lib_parser(path)
    return {"ok": p is not None and type(p).__name__ in STRIPPABLE}


# ------------------------------------------------------------------ options

def options(rng, tool, tmp):
    """(arguments, what they mean)"""
    a, o = [], {}

    def flag(name, key, prob=.15, value=True):
        if rng.random() < prob:
            a.append(name)
            o[key] = value
    if tool == "metadata":
        r = rng.random()
        if r < .15:
            a.append("--type")
            o["type"] = True
        elif r < .3:
            a.append("--mime")
            o["mime"] = True
        if rng.random() < .3:
            o["level"] = rng.randint(1, 9)
            a.append("--level=%d" % o["level"])
        flag("--raw", "raw")
        if rng.random() < .2:
            o["quality"] = rng.choice((0., .3, 1.))
            a.append("--quality=%s" % o["quality"])
        if rng.random() < .2:
            o["maxlen"] = rng.choice((0, 5, 50, 1000))
            a.append("--maxlen=%d" % o["maxlen"])
        if rng.random() < .1:
            o["force"] = rng.choice(IDS)
            a += ["--force-parser", o["force"]]
        if rng.random() < .1:
            a.append(rng.choice(("--verbose", "--debug")))
            o["noisy"] = True
    elif tool == "grep":
        flag("--no-addr", "no_addr")
        flag("--no-value", "no_value")
        flag("--case", "case", .3)
        flag("--path", "path", .3)
        flag("--percent", "percent", .1)
        if rng.random() < .1:
            a.append(rng.choice(("--verbose", "--debug", "--quiet")))
            o["noisy"] = True
    elif tool == "list":
        flag("--description", "description")
        flag("--hide-value", "hide_value")
        flag("--hide-size", "hide_size")
        if rng.random() < .2:
            o["indent"] = rng.randint(0, 6)
            a.append("--indent-width=%d" % o["indent"])
        if rng.random() < .1:
            o["parser"] = rng.choice(IDS)
            a.append("--parser=" + o["parser"])
        if rng.random() < .1:
            o["offset"] = rng.choice((1, 16, 1000, 10 ** 6))
            a.append("--offset=%d" % o["offset"])
        if rng.random() < .1:
            o["size"] = rng.choice((1, 64, 5000, 10 ** 7))
            a.append("--size=%d" % o["size"])
        if rng.random() < .1:
            a.append(rng.choice(("--verbose", "--debug", "--quiet")))
            o["noisy"] = True
    elif tool == "strip":
        if rng.random() < .5:
            a.append("--strip=" + ",".join(rng.sample(("useless", "metadata", "index"), rng.randint(1, 3))))
        flag("--quiet", "quiet", .2)
    elif tool == "subfile":
        flag("--quiet", "quiet", .2)
        if rng.random() < .2:
            o["offset"] = rng.choice((1, 100))
            a.append("--offset=%d" % o["offset"])
        if rng.random() < .2:
            o["size"] = rng.choice((100, 5000, 10 ** 6))
            a.append("--size=%d" % o["size"])
        if rng.random() < .3:
            a.append("--category=" + rng.choice(("image", "archive", "audio,video", "container", "image,misc")))
    if rng.random() < .06 and tool in ("grep", "list"):
        a.append("--log=" + os.path.join(tmp, "log.txt"))
        o["log"] = True
    return a, o


PATTERNS = ("a", "e", "The", "IHDR", "tag", "mp", "0", " ", "x", "PNG", "http", "\xe9", ".")


def expected_metadata(v, o, name, multi, charset):
    out = []
    for line in v["lines"]:
        if multi:
            line = "%s: %s" % (name, line)
        if not (o.get("type") or o.get("mime")):
            line = makePrintable(line, charset)
        out.append(line)
    return out


def expected_grep(v, o, name, multi, charset):
    out = []
    for addr, path, value in v["lines"]:
        t = []
        if multi:
            t.append(makePrintable(name, charset))
        if not o.get("no_addr"):
            t.append("%d" % (addr // 8) if addr % 8 == 0 else "%d.%d" % divmod(addr, 8))
        if o.get("path"):
            t.append(path)
        if not o.get("no_value"):
            t.append(makePrintable(value, charset))
        if t:
            out.append(":".join(t))
    return out




# --------------------------------------------------------------- executions

def monitor(res, tool, label, tmp, before, r, new=()):
    """Monitors of any execution"""
    key = tool + ":"
    res.evals += 1
    res.ev("executions")
    res.ev("executions of " + tool)
    res.ev("status %s" % r.code)
    if r.code == -24 or r.code == -9:
        res.ev("executions out of time")
        return False
    res.expect(r.end in ("return", "exit"), key + "traceback:" + re.sub(r"[^A-Za-z].*", "", r.end) + ":" + r.end.rpartition("(")[2],
               "%s ends with %s %s" % (label, r.end, r.err[-400:].decode("utf-8", "replace") if r.end == "Traceback" else ""))
    after = state_of(tmp)
    for n in before:
        res.expect(after.get(n) == before[n], key + "input-changed", "%s: the input %r was modified" % (label, n))
    extra = [n for n in after if n not in before and not any(re.fullmatch(x, n, re.S) for x in new)]
    res.expect(not extra, key + "new-file", "%s: new files %s" % (label, extra))
    res.ev("input files watched", len(before))
    return True


def clean(tmp, before):
    for n in state_of(tmp):
        if n not in before and os.path.lexists(os.path.join(tmp, n)):
            path = os.path.join(tmp, n)
            shutil.rmtree(path) if os.path.isdir(path) and not os.path.islink(path) else os.unlink(path)


def new_files(tool, o):
    new = []
    if o.get("log"):
        new.append(r"log\.txt")
    if tool == "strip":
        new.append(r".*\.new")
    if tool == "subfile":
        new += ["out", "out/.*"]
    return new


def show(tool, args):
    return "hachoir-%s %s" % (tool, " ".join(repr(a) if re.search(r"[^\w./=,-]", a) else a for a in args))


def run_case(k):
    res = Result()
    rng = rng_for(PID, SEED, "run", k)
    tool = ("metadata", "grep", "list", "metadata", "grep", "list", "strip", "subfile", "metadata", "list")[k % 10]
    charset = UTF8 if rng.random() < .8 else ASCII
    cname = "UTF-8" if charset is UTF8 else "ANSI_X3.4-1968"
    base = tempfile.mkdtemp(dir=tmp_root())
    try:
        tmp = os.path.join(base, "in")
        os.mkdir(tmp)
        n = 1 if tool == "subfile" else rng.choice((1, 1, 2, 2, 3, 4))
        files = []
        for i in range(n):
            f = some_file(rng, tmp, i)
            if all(f.name != x.name for x in files):
                files.append(f)
        before = state_of(tmp)
        args, o = options(rng, tool, tmp)
        names = [f.name for f in files]
        if rng.random() < .2:
            names = [os.path.join(tmp, x) for x in names]
        head = list(args)
        if tool == "grep":
            if rng.random() < .25:
                head.append("--all")
                o["all"] = True
            else:
                o["pattern"] = rng.choice(PATTERNS)
                head.append(o["pattern"])
        if tool == "subfile" and rng.random() < .5:
            args2 = head + names + ["out"]
            os.mkdir(os.path.join(tmp, "out"))
            before = state_of(tmp)
        else:
            args2 = head + names
        label = show(tool, args2) + " (%s%s)" % (", ".join(f.kind for f in files), ", ascii" if charset is ASCII else "")
        for f in files:
            res.seen(tool, args, f.data or f.kind)
        new = new_files(tool, o)
        r = forked(tool, args2, tmp, charset)
        if not monitor(res, tool, label, tmp, before, r, new):
            return res
        made = {x: open(os.path.join(tmp, x), "rb").read() for x in state_of(tmp) if x.endswith(".new")}
        clean(tmp, before)
        if r.end not in ("return", "exit"):
            return res
        if k < 10:
            res.samples.append("%s: status %d, %d bytes of output" % (label[:160], r.code, len(r.out)))

        # what the library says
        os.chdir(tmp)
        fn = {"metadata": lib_metadata, "grep": lib_grep, "list": lib_list, "strip": lib_strip}.get(tool)
        if fn is not None:
            vals = [Lib(lambda: fn(x, o)).value for x in names]
            if not any("error" in v for v in vals):
                want = int(not all(v["ok"] for v in vals))
                sure = tool != "strip" or all(not v["ok"] or (not f.kind.startswith("damaged")) for v, f in zip(vals, files))
                if sure or want == 1:
                    res.expect(r.code == want, tool + ":status", "%s: status %d, the files: %s" % (
                        label, r.code, [v["ok"] for v in vals]), err=r.err[-300:].decode("utf-8", "replace"))
                    res.ev("status predicted: %d" % want)
                compare_output(res, tool, label, o, names, vals, r, cname)
            else:
                res.ev("library error")
        elif tool == "subfile":
            f = files[0]
            want = 0 if f.data else 1
            if not (o.get("offset", 0) and f.data and o["offset"] >= len(f.data)):
                res.expect(r.code == want, "subfile:status", "%s: status %d" % (label, r.code), err=r.err[-300:].decode("utf-8", "replace"))

        # each file alone, twice: the output for one file among several
        if len(names) > 1 and not o.get("percent"):
            outs, errs, codes = [], [], []
            sep = b"\n" if tool == "list" else b""
            alone = {}
            for x in names:
                r2 = forked(tool, head + [x, x], tmp, charset)
                if not monitor(res, tool, show(tool, head + [x, x]), tmp, before, r2, new):
                    return res
                for y in state_of(tmp):
                    if y.endswith(".new"):
                        alone[y] = open(os.path.join(tmp, y), "rb").read()
                clean(tmp, before)
                h, rem = divmod(len(r2.out) - len(sep), 2)
                a, b = r2.out[:h], r2.out[len(r2.out) - h:]
                res.expect(not rem and a == b and r2.out[h:h + len(sep)] == sep, tool + ":twice",
                           "%s: the same file twice: different outputs (%d bytes)" % (show(tool, head + [x, x]), len(r2.out)))
                outs.append(a)
                he = len(r2.err) // 2
                errs.append(r2.err[:he])
                codes.append(r2.code)
            res.expect(r.out == sep.join(outs), tool + ":independence", lambda: "%s: output is not made of the outputs for each file: %s" % (
                label, first_diff(r.out, sep.join(outs))))
            if tool != "subfile":
                res.expect(r.err == b"".join(errs), tool + ":independence-errors", lambda: "%s: messages differ from those for each file: %s" % (
                    label, first_diff(r.err, b"".join(errs))))
            res.expect(r.code == max(codes), tool + ":independence-status", "%s: status %s, alone: %s" % (label, r.code, codes))
            res.expect(made == alone, tool + ":independence-files", "%s: files written %s, alone: %s" % (
                label, {a: len(b) for a, b in made.items()}, {a: len(b) for a, b in alone.items()}))
            res.ev("files compared with the same file alone", len(names))
    finally:
        os.chdir("/")
        shutil.rmtree(base, ignore_errors=True)
    return res


def first_diff(a, b):
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "at %d of %d/%d: %r instead of %r" % (n, len(a), len(b), a[max(0, n - 30):n + 50], b[max(0, n - 30):n + 50])


def compare_output(res, tool, label, o, names, vals, r, cname):
    multi = len(names) > 1
    cs = "utf-8" if cname == "UTF-8" else "ascii"

    def enc(t):
        return t.encode(cs, "backslashreplace")
    if tool == "list":
        res.ev("fields compared", sum(len(v.get("lines", ())) for v in vals))
        if any(not v["ok"] for v in vals) or multi:
            return
        # every field, in order: indentation, name, size
        out = r.out.decode(cs)
        pos = 0
        ind = o.get("indent", 2)
        for depth, name, size, disp in vals[0]["lines"]:
            text = " " * (ind * depth) + name + " <"
            if not out.startswith(text, pos):
                return res.fail("list:fields", "%s: expected the field %r at %r" % (label, text, out[pos:pos + 80]))
            e = out.find(">", pos)
            if not o.get("hide_size"):
                s = "%dB" % (size // 8) if size % 8 == 0 else "%db" % size
                if not out[:e].endswith(", " + s):
                    return res.fail("list:size", "%s: %r has size %s" % (label, out[pos:e + 1], s))
            if o.get("description"):
                # free text: go to the next line which starts with a field
                e = out.find("\n", e)
            if o.get("hide_value") or disp is None or o.get("description"):
                pass
            else:
                w = enc(": " + disp).decode(cs)
                if out[e + 1:e + 1 + len(w)] != w:
                    return res.fail("list:value", "%s: %r is displayed %r" % (label, out[pos:e + 100], w))
                e += len(w)
            pos = out.find("\n", e) + 1
            res.evals += 1
        if not o.get("description"):
            res.expect(pos == len(out), "list:more", "%s: more output: %r" % (label, out[pos:pos + 100]))
        return
    if tool in ("metadata", "grep"):
        want = []
        for name, v in zip(names, vals):
            if v["ok"]:
                want += (expected_metadata if tool == "metadata" else expected_grep)(v, o, name, multi, cname)
        data = b"".join(enc(line + "\n") for line in want)
        res.expect(r.out == data, tool + ":output", lambda: "%s: %s" % (label, first_diff(r.out, data)))
        res.ev("lines compared", len(want))


def proc_case(k):
    """The same command line in a fork and in new interpreters"""
    res = Result()
    rng = rng_for(PID, SEED, "proc", k)
    tool = ("metadata", "grep", "list", "strip", "subfile", "metadata", "list")[k % 7]
    base = tempfile.mkdtemp(dir=tmp_root())
    try:
        tmp = os.path.join(base, "in")
        os.mkdir(tmp)
        files = []
        for i in range(1 if tool == "subfile" else rng.randint(1, 3)):
            f = some_file(rng, tmp, i)
            if all(f.name != x.name for x in files):
                files.append(f)
        before = state_of(tmp)
        args, o = options(rng, tool, tmp)
        names = [os.path.join(tmp, f.name) for f in files]
        if tool == "grep":
            args.append(rng.choice(PATTERNS[:-2]))
        args += names
        label = show(tool, args)
        res.seen("proc", tool, args)
        new = new_files(tool, o)
        # the names of files are decoded in another way in an ASCII locale
        ascii_ = rng.random() < .5 and all(x.isascii() for x in names)
        loc = {"LC_ALL": "C", "LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "PYTHONIOENCODING": None} if ascii_ \
            else {"PYTHONIOENCODING": None}
        runs = []
        r = forked(tool, args, tmp, ASCII if ascii_ else UTF8)
        if not monitor(res, tool, label, tmp, before, r, new):
            return res
        clean(tmp, before)
        runs.append(("fork", r))
        for seed, cwd, tz in ((rng.randint(1, 1000), base, "UTC"), (rng.randint(1001, 2000), "/", rng.choice(("America/New_York", "Asia/Tokyo", "UTC-5")))):
            r2 = real(tool, args, cwd, PYTHONHASHSEED=str(seed), TZ=tz, **loc)
            monitor(res, tool, label + " (process)", tmp, before, r2, new)
            clean(tmp, before)
            runs.append(("hash seed %d, directory %s, TZ %s" % (seed, cwd, tz), r2))
            res.ev("new interpreters")
        for how, r2 in runs[1:]:
            if r.end not in ("return", "exit"):
                break
            res.expect(r2.code == r.code, tool + ":process-status", "%s: status %s, %s: %s" % (label, r.code, how, r2.code),
                       err=r2.err[-300:].decode("utf-8", "replace"))
            res.expect(r2.out == r.out, tool + ":process-output", lambda: "%s: %s: %s" % (label, how, first_diff(r2.out, r.out)))
            if tool != "subfile" and not o.get("noisy"):
                res.expect(r2.err == r.err, tool + ":process-errors", lambda: "%s: %s: %s" % (label, how, first_diff(r2.err, r.err)))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return res


def option_case(k):
    """Options without file, wrong options, benchmarks, csv"""
    res = Result()
    rng = rng_for(PID, SEED, "option", k)
    base = tempfile.mkdtemp(dir=tmp_root())
    try:
        tmp = os.path.join(base, "in")
        os.mkdir(tmp)
        tool = rng.choice(sorted(TOOLS))
        if tool == "csv":
            d = os.path.join(tmp, "docs")
            os.mkdir(d)
            docs = [n for n in corpus.names() if n.lower().endswith((".doc", ".xls", ".ppt"))] or corpus.names()
            for i in range(rng.randint(0, 4)):
                f = some_file(rng, d, i, special=.1)
                if f.data is not None and os.path.isfile(os.path.join(d, f.name)):
                    os.rename(os.path.join(d, f.name), os.path.join(d, "d%d.%s" % (i, rng.choice(("doc", "DOC", "txt")))))
            if rng.random() < .7:
                with open(os.path.join(d, "z.doc"), "wb") as fp:
                    fp.write(corpus.load(rng.choice(docs)))
            if rng.random() < .3:
                os.symlink("nowhere", os.path.join(d, "q.doc"))
            args, code, new = [d, rng.choice(("title", "title,creation_date", "author, width"))], 0, [r"metadata\.csv"]
            if rng.random() < .15:
                args, code = args[:rng.randint(0, 1)], 1
        else:
            new = []
            what = rng.choice(("none", "version", "help", "bad", "badvalue", "bench", "list", "profiler"))
            f = some_file(rng, tmp, 0, special=0)
            path = f.name
            code = 0
            if what == "none":
                args, code = [], 1
            elif what == "version":
                args = ["--version"] + ([path] if rng.random() < .5 else [])
            elif what == "help":
                args = ["--help"]
            elif what == "bad":
                args, code = ["--no-such-option", path], 2
            elif what == "badvalue" and tool in ("metadata", "list", "subfile"):
                args, code = [{"metadata": "--level=0", "list": "--offset=x", "subfile": "--size=x"}[tool], path], 2
            elif what == "bench" and tool in ("metadata", "grep"):
                args, code = ["--bench", path], None
            elif what == "list" and tool in ("metadata", "list"):
                args = ["--parser-list"]
            elif what == "profiler" and tool in ("metadata", "subfile"):
                args, code = ["--profiler", path], None
            else:
                args, code = ["--version"], 0
        before = state_of(tmp)
        label = show(tool, args)
        res.seen("option", tool, args)
        r = forked(tool, args, tmp)
        if not monitor(res, tool, label, tmp, before, r, new):
            return res
        if tool == "csv":
            one = open(os.path.join(tmp, "metadata.csv"), "rb").read() if code == 0 and r.code == 0 else None
        clean(tmp, before)
        if code is not None:
            res.expect(r.code == code, tool + ":option-status", "%s: status %s instead of %s" % (label, r.code, code))
        if code == 0 and "--profiler" not in args and "--bench" not in args:
            r2 = forked(tool, args, tmp)
            res.expect((r.out, r.code) == (r2.out, r2.code), tool + ":option-output", "%s: different outputs" % label)
            if "--version" in args:
                res.expect(r.out.startswith(b"Hachoir version "), tool + ":version", "%s: %r" % (label, r.out[:80]))
            if "--parser-list" in args:
                ids = r.out.decode()
                res.expect(all(i in ids for i in IDS) or tool == "metadata", tool + ":parser-list", "%s: parsers missing: %s" % (
                    label, [i for i in IDS if i not in ids][:5]))
            if tool == "csv" and one is not None:
                two = open(os.path.join(tmp, "metadata.csv"), "rb").read()
                res.expect(one == two, "csv:output", "%s: different files" % label)
                lines = one.decode("utf-8").splitlines()
                n = len([x for x in state_of(tmp) if x.lower().endswith(".doc")])
                m = re.search(rb"Valid files: (\d+)\s+Invalid files: (\d+)\s+Total files: (\d+)", r.err)
                res.expect(m and int(m[3]) == n and int(m[1]) == len(lines) and int(m[1]) + int(m[2]) == n, "csv:summary",
                           "%s: %d .doc files, %d lines: %r" % (label, n, len(lines), r.err[-200:]))
                res.ev("csv files")
            clean(tmp, before)
        res.ev("option runs")
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return res


def case(c):
    kind, k = c
    return {"run": run_case, "proc": proc_case, "option": option_case}[kind](k)


def main():
    c = check.Check(PID, "command line: tool, options, content of each file",
                    required=("executions of metadata", "executions of grep", "executions of list", "executions of strip",
                              "executions of subfile", "executions of csv", "status predicted: 0", "status predicted: 1",
                              "lines compared", "fields compared", "files compared with the same file alone",
                              "new interpreters", "input files watched", "option runs", "csv files"))
    cases = []
    n = c.n(1200, 20000)
    for k in range(n):
        cases.append(("run", k))
        if k % 12 == 0:
            cases.append(("proc", k // 12))
        if k % 5 == 0:
            cases.append(("option", k // 5))
    c.run(case, cases, timeout=400, deadline=c.deadline(200, 3000), on_timeout=c.note_timeout)
    return c.finish()


if __name__ == "__main__":
    raise SystemExit(main())
