"""C13: parser selection.

Oracle: the acceptance of a content by each parser, observed one parser at a
time on fresh streams, and an independent model of the order in which the hints
put the parsers. Also: the same queries in other processes (hash seed, import
order, working directory, locale) and in other orders; the caller's arguments
and the content before and after; the consistency of the list itself."""
import hashlib
import importlib
import io
import json
import os
import pkgutil
import re
import shutil
import subprocess
import tempfile
from inspect import getmro

from vlib import check, corpus, env, tree
from vlib.check import Result, rng_for
from vlib.env import SEED
from hachoir.parser import HachoirParserList, QueryParser, ValidateError, createParser, guessParser
from hachoir.parser.parser import HachoirParser
from hachoir.stream import FileInputStream, StringInputStream
from hachoir.stream.stream import StreamError

PID = "C13"
DB = list(HachoirParserList.getInstance())

# what the sample files are, whatever their name
KIND = {
    "mp3": "mpeg_audio", "xcf": "xcf", "mkv": "matroska", "aifc": "aiff", "tga": "targa", "chm": "chm",
    "MTS": "mpeg_ts", "ts": "mpeg_ts", "class": "java_class", "map": "mapsforge_map", "ani": "riff", "ptm": "ptm", "7z": "7zip",
    "tcpdump": "tcpdump", "bmp": "bmp", "au": "sun_next_snd", "flv": "flv", "ext2": "ext2", "der": "asn1",
    "cr2": "cr2", "cda": "riff", "exe": "exe", "swf": "swf", "bom": "bom_store", "torrent": "torrent", "ttf": "ttf",
    "fat16": "fat16", "xm": "fasttracker2", "arj": "arj", "rm": "real_media", "bz2": "bzip2", "rpm": "rpm",
    "cab": "cab", "elf": "elf", "wmf": "wmf", "emf": "wmf", "jpg": "jpeg", "ace": "ace", "rar": "rar", "sxw": "zip",
    "flac": "flac", "gif": "gif", "mid": "midi", "ogg": "ogg", "wav": "riff", "laf": "lucasarts_font", "pcx": "pcx",
    "png": "png", "macho": "macho_fat", "wmv": "asf", "nds": "nds_file", "pack": "git_pack", "pak": "prs_pak",
    "mov": "mov", "mp4": "mov", "doc": "ole2", "tif": "tiff", "s3m": "s3m", "tar": "tar", "avi": "riff", "blp": "blp1",
    "gz": "gzip", "fit": "fit", "zlib": "zlib", "lnk": "lnk", "model": "java_serialized", "ico": "ico", "3ds": "3ds",
    "linux_swap_9pages": "linux_swap", "mbr_linux_and_ext": "msdos_harddrive", "reiserfs_v3_332k.bin": "reiserfs"}


def kind_of(name):
    if name in KIND:
        return KIND[name]
    if name.startswith(("pyc_example", "python.")):
        return "python"
    if name.startswith("ping_"):
        return "elf"
    return KIND.get(name.rsplit(".", 1)[-1])


def tags_of(cls):
    tags = {}
    for c in reversed(getmro(cls)):
        tags.update(vars(c).get("PARSER_TAGS", {}))
    return tags


TAGS = {p: tags_of(p) for p in DB}
NAME = {p: TAGS[p]["id"] for p in DB}
EXTS = sorted({e for t in TAGS.values() for e in t.get("file_ext", ())})
MIMES = sorted({m for t in TAGS.values() for m in t.get("mime", ())})


def has(p, key, value):
    v = TAGS[p].get(key, ())
    if isinstance(v, str):
        v = (v,)
    return value in v


def model_order(tags):
    rest = list(DB)
    out, forced = [], set()
    for t in tags:
        if not rest:
            break
        if t is None:
            rest = []
            continue
        if callable(t):
            sel = [p for p in rest if t(p)]
        elif t[0] == "class":
            out.append(t[1])
            forced.add(t[1])
            continue
        else:
            key, value = t
            if key == "filename":
                base = value.rsplit("/", 1)[-1]
                value = base.rsplit(".", 1)[1].lower() if "." in base else ""
                key = "file_ext"
            sel = [p for p in rest if has(p, key, value)]
            if key == "id":
                forced |= set(sel)
        out += sel
        rest = [p for p in rest if p not in sel]
    return out + rest, forced


def stream(data, tags):
    return StringInputStream(data, tags=tuple(tags))


def accepts(p, data, tags, forced):
    """Does the parser, alone, take this content?"""
    try:
        p(stream(data, tags), validate=p not in forced)
        return True
    except Exception:
        return False


def accept_errors_ok(res, p, data, tags, label):
    """What the validating constructor accepts, validate() accepts."""
    try:
        p(stream(data, tags), validate=True)
    except Exception as err:
        if isinstance(err, ValidateError):
            res.ev("contents refused with a reason")
            res.expect(str(err) != "", "reason", "%s: %s refuses without a reason" % (label, NAME[p]))
        return
    try:
        v = p(stream(data, tags)).validate()
    except Exception as err:
        v = err
    res.ev("contents accepted")
    res.expect(v is True and 8 * len(data) >= TAGS[p]["min_size"], "accept:%s" % NAME[p],
               "%s: the constructor of %s accepts, validate() gives %r" % (label, NAME[p], v))


def desc(tags):
    out = []
    for t in tags:
        if isinstance(t, tuple) and len(t) == 2 and isinstance(t[1], type):
            t = (t[0], t[1].__name__)
        out.append("function" if callable(t) else t)
    return out


def random_tags(rng, name):
    out = []
    for _ in range(rng.choice((0, 1, 1, 1, 2, 2, 3))):
        r = rng.randrange(12)
        if r < 4:
            e = rng.choice(EXTS)
            fn = rng.choice((name, "x." + e, "X." + e.upper(), "/a.b/c." + e, "dir.d/file", "a." + e + ".bak", "." + e,
                             "noext", "a." + e.title(), "x.y." + e, "trail."))
            out.append(("filename", fn))
        elif r < 6:
            out.append(("mime", rng.choice(MIMES + ["no/such"])))
        elif r == 6:
            out.append(("file_ext", rng.choice(EXTS)))
        elif r == 7:
            out.append(("id", rng.choice([NAME[p] for p in DB] + ["nosuch", "nosuch"])))
        elif r == 8:
            out.append(("class", rng.choice(DB)))
        elif r == 9:
            out.append(("category", rng.choice(("archive", "audio", "image", "misc", "program", "video"))))
        elif r == 10:
            k = rng.choice("aeiou")
            out.append(lambda p, k=k: k in TAGS[p]["id"][:3])
        elif out:
            out.append(None)
    return out


def content(rng):
    r = rng.random()
    names = corpus.names()
    name = rng.choice(names)
    if r < .3:
        return corpus.load(name)[:rng.choice((300000, 300000, 40000))], name, "corpus"
    if r < .7:
        c = tree.hostile_case(rng, forced=0)
        return c["data"], c["name"], "hostile"
    if r < .8:
        d = corpus.load(name)
        return d[:rng.randrange(1, min(len(d), 600) + 1)], name, "short"
    if r < .9:
        p = rng.choice(DB)
        magics = TAGS[p].get("magic", ())
        if magics:
            m, off = rng.choice(magics)
            fill = rng.choice((b"\0", b"\xff", b"A", rng.randbytes(1)))
            return fill * (off // 8) + m + fill * rng.randrange(3000), "x." + rng.choice(EXTS), "magic"
    if r < .95:
        o = corpus.load(rng.choice(names))
        return rng.randbytes(rng.choice((1, 16, 512))) + o[:20000], name, "shifted"
    return rng.randbytes(rng.choice((1, 4, 100, 5000))), name, "random"


def ident(p):
    return None if p is None else type(p).__name__ + ":" + tags_of(type(p)).get("id", "")


def guess_case(res, rng):
    data, name, kind = content(rng)
    tags = random_tags(rng, name)
    label = "%s %s (%d bytes, %s) hints %s" % (kind, name, len(data), hashlib.md5(data).hexdigest()[:8], desc(tags))
    keep = list(tags)
    order, forced = model_order(tags)
    exp = None
    n = 0
    for p in order:
        n += 1
        if accepts(p, data, tags, forced):
            exp = p
            break
    s = stream(data, tags)
    try:
        got = guessParser(s)
    except Exception as err:
        res.fail("guess:%s" % type(err).__name__, "%s: guessParser raises %r" % (label, err))
        return
    res.expect(type(got) is exp if got is not None else exp is None, "choice", lambda: "%s: %s chosen, expected %s" % (
        label, ident(got), exp and exp.__name__))
    res.expect(tags == keep and s.tags == tuple(keep), "tags", "%s: the hints were changed to %r" % (label, desc(tags)))
    res.ev("guesses")
    res.ev("guesses: none" if exp is None else "guesses: forced" if exp in forced else "guesses: accepted")
    if n > 1 and exp is not None:
        res.ev("guesses after refusals")
    res.seen(exp and NAME.get(exp, exp.__name__), desc(tags), kind)
    # asked again: same stream, new stream, new query object, other history
    again = guessParser(s)
    res.expect(ident(again) == ident(got), "again", "%s: %s, then %s on the same stream" % (label, ident(got), ident(again)))
    del got, again
    again = guessParser(s)
    res.expect(ident(again) == (exp and exp.__name__ + ":" + tags_of(exp).get("id", "")), "again later",
               "%s: %s when asked later" % (label, ident(again)))
    q = QueryParser(tags)
    res.expect(list(q) == order, "order", lambda: "%s: parsers are tried in the order %s, expected %s" % first_diff(
        label, list(q), order))
    # a content which some parser was forced on is still not accepted by it
    other, fo = model_order(())
    wrong = rng.choice(DB)
    s2 = stream(data, ())
    first = QueryParser([("id", NAME[wrong]), None]).parse(s2)
    got2 = QueryParser(()).parse(s2)
    exp2 = next((p for p in other if accepts(p, data, (), ())), None)
    res.expect((type(got2) if got2 is not None else None) is exp2, "after forcing", lambda: "%s: %s after forcing %s, "
               "expected %s" % (label, ident(got2), NAME[wrong], exp2 and NAME[exp2]))
    if first is not None:
        res.expect(type(first) is wrong, "forced", "%s: forcing %s gives %s" % (label, NAME[wrong], ident(first)))
        res.ev("forced parsers")
    for p in rng.sample(DB, 6):
        accept_errors_ok(res, p, data, tags, label)


def first_diff(label, a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x is not y:
            return label, "...%d: %s" % (i, x.__name__), y.__name__
    return label, len(a), len(b)


class Watch(io.BytesIO):
    """A file object which records every call that could change it."""
    changed = False

    def write(self, *args):
        self.changed = True
        return io.BytesIO.write(self, *args)

    def truncate(self, *args):
        self.changed = True
        return io.BytesIO.truncate(self, *args)


def create_case(res, rng, tmp):
    """createParser() on files and file objects."""
    data, name, kind = content(rng)
    e = rng.choice(EXTS)
    fn = os.path.join(tmp, rng.choice((name, "f." + e, "noext", "F." + e.upper(), "a.b." + e)))
    with open(fn, "wb") as fp:
        fp.write(data)
    tags = random_tags(rng, name)
    arg = list(tags) if rng.random() < .6 else tuple(tags)
    keep = list(arg)
    real = None
    eff = list(tags)
    label = "createParser %s %s hints %s" % (kind, os.path.basename(fn), desc(tags))
    if rng.random() < .3:
        obj = Watch(data)
        obj.name = fn
        given = obj
    else:
        obj = None
        given = fn
        if rng.random() < .3:
            # the name given is only used for its extension
            real = fn
            given = os.path.join(tmp, "other." + rng.choice(EXTS))
    eff.append(("filename", given if isinstance(given, str) else fn))
    order, forced = model_order(eff)
    exp = next((p for p in order if accepts(p, data, eff, forced)), None)
    try:
        p = createParser(given, real_filename=real, tags=arg)
    except StreamError as err:
        res.fail("create:%s" % type(err).__name__, "%s raises %r" % (label, err))
        return
    except Exception as err:
        res.fail("create:%s:%s" % (type(err).__name__, tree.where(err)), "%s raises %r" % (label, err))
        return
    res.expect((type(p) if p is not None else None) is exp, "create:choice", lambda: "%s: %s chosen, expected %s" % (
        label, ident(p), exp and NAME.get(exp, exp.__name__)))
    res.expect(list(arg) == keep, "create:tags", "%s: the caller's tags became %r" % (label, desc(arg)))
    if p is not None:
        # used again, the same list of tags says the same thing
        with p:
            list(p)
    with open(fn, "rb") as fp:
        res.expect(fp.read() == data, "create:content", "%s: the file was modified" % label)
    if obj is not None:
        res.expect(not obj.changed and (obj.closed or obj.getvalue() == data), "create:object",
                   "%s: the file object was modified" % label)
    res.ev("createParser calls")
    res.ev("createParser: none" if exp is None else "createParser: found")
    res.seen("create", kind, exp and NAME.get(exp), os.path.basename(fn), desc(tags))


def sample_case(res, n):
    """A well-formed file is recognised without any hint, by one format."""
    names = corpus.names()
    name = names[n % len(names)]
    data = corpus.load(name)
    exp = kind_of(name)
    if exp is None:
        res.ev("samples of unknown kind")
        return
    got = guessParser(StringInputStream(data))
    res.expect(got is not None and NAME[type(got)] == exp, "sample", "%s is taken for %s without hint" % (name, ident(got)))
    ok = [NAME[p] for p in DB if accepts(p, data, (), ())]
    # a Canon CR2 image is a TIFF image
    allowed = {exp} | ({"tiff"} if exp == "cr2" else set())
    res.expect(exp in ok and set(ok) <= allowed, "sample:one", "%s is accepted by %s" % (name, ok))
    p = tree.PARSERS[exp]
    t = TAGS[p]
    res.expect(8 * len(data) >= t["min_size"], "sample:min", "%s is smaller than the minimum size of %s" % (name, exp))
    res.ev("samples recognised")
    res.seen("sample", name)
    # every extension and MIME type leads to the parser first
    for key, hint in [("filename", "x." + e) for e in t.get("file_ext", ()) if e] + [("mime", m) for m in t.get("mime", ())]:
        s = StringInputStream(data, tags=((key, hint), None))
        got = guessParser(s)
        res.expect(got is not None and NAME[type(got)] == exp, "sample:hint", "%s: the hint %r, alone, gives %s" % (
            name, hint, ident(got)))
        res.ev("effective hints")
    # too short
    for cut in {1, t["min_size"] // 8 - 1, t["min_size"] // 16}:
        if 0 < cut < t["min_size"] // 8:
            try:
                p(StringInputStream(data[:cut]), validate=True)
                res.fail("sample:short", "%s accepts %d bytes, its minimum size is %d bits" % (exp, cut, t["min_size"]))
            except Exception:
                pass
            res.evals += 1


def list_case(res):
    """Consistency of the list of parsers."""
    seen = {}
    for p in DB:
        t = TAGS[p]
        i = t["id"]
        res.expect(p.getParserTags() == t, "list:tags", "%s: getParserTags()" % i)
        res.expect(re.fullmatch("[a-z0-9][a-z0-9_]{2,}", i), "list:id", "identifier %r" % i)
        res.expect(i not in seen, "list:unique", "identifier %r: %s and %s" % (i, p, seen.get(i)))
        seen[i] = p
        res.expect(isinstance(t.get("description"), str) and t["description"], "list:description", i)
        res.expect(isinstance(t.get("min_size"), int) and t["min_size"] > 0, "list:min", "%s: %r" % (i, t.get("min_size")))
        for e in t.get("file_ext", ()):
            res.expect(isinstance(e, str) and e == e.lower() and "." not in e and "/" not in e, "list:ext",
                       "%s: extension %r can never match" % (i, e))
            q = [x for x in QueryParser([("filename", "some.file." + e if e else "nodot"), None])]
            res.expect(p in q and q == [x for x in DB if has(x, "file_ext", e)], "list:ext index",
                       "%s: extension %r selects %s" % (i, e, [NAME[x] for x in q]))
        for m in t.get("mime", ()):
            res.expect(isinstance(m, str) and re.fullmatch(r"[a-z0-9.+-]+/[a-zA-Z0-9.+_-]+", m), "list:mime", "%s: %r" % (i, m))
            q = list(QueryParser([("mime", m), None]))
            res.expect(p in q and q == [x for x in DB if has(x, "mime", m)], "list:mime index", "%s: MIME type %r" % (i, m))
        q = list(QueryParser([("id", i), None]))
        res.expect(q == [p], "list:id index", "id %r selects %s" % (i, q))
        for m in t.get("magic", ()):
            res.expect(isinstance(m, tuple) and len(m) == 2 and isinstance(m[0], bytes) and m[0] and
                       isinstance(m[1], int) and m[1] >= 0 and m[1] % 8 == 0, "list:magic", "%s: magic %r" % (i, m))
        for m in t.get("magic_regex", ()):
            try:
                ok = isinstance(m[0], bytes) and m[1] % 8 == 0 and re.compile(m[0])
            except Exception:
                ok = False
            res.expect(ok, "list:regex", "%s: magic regex %r" % (i, m))
        res.expect(callable(getattr(p, "validate", None)) and p.validate is not HachoirParser.validate, "list:validate", i)
        res.ev("parsers")
        res.seen("parser", i)
    # a declared magic number is met in the samples of the format
    samples = {}
    for name in corpus.names():
        samples.setdefault(kind_of(name), []).append(corpus.load(name))
    for p in DB:
        m = TAGS[p].get("magic", ())
        rx = [(re.compile(b, re.DOTALL), o) for b, o in TAGS[p].get("magic_regex", ())]
        if (m or rx) and NAME[p] in samples:
            hit = any(any(d[o // 8:o // 8 + len(b)] == b for b, o in m) or any(r.match(d, o // 8) for r, o in rx)
                      for d in samples[NAME[p]])
            res.ev("declared magic numbers met in a sample")
            res.expect(hit, "list:magic effective", "no sample of %s has a magic number it declares" % NAME[p])
    res.expect(list(HachoirParserList.getInstance()) == DB, "list:stable", "the list changed")
    # every parser of the categories' modules which declares an id is listed
    import hachoir.parser as hp
    for mod in pkgutil.iter_modules(hp.__path__):
        if not mod.ispkg:
            continue
        m = importlib.import_module("hachoir.parser." + mod.name)
        for v in vars(m).values():
            if isinstance(v, type) and issubclass(v, HachoirParser) and hasattr(v, "PARSER_TAGS"):
                res.expect(v in DB, "list:missing", "%s is not in the list of parsers" % v)


# ---------------------------------------------------------------- processes

CHILD = """
import sys, json, importlib
spec = json.load(open(sys.argv[1]))
for m in spec["imports"]:
    importlib.import_module(m)
import hachoir.core.config as config
config.quiet = True
from hachoir.core.log import log
log.use_print = False
junk = [bytes(n) for n in range(spec["junk"])]
from hachoir.parser import HachoirParserList, createParser
out = []
for fn in spec["files"]:
    p = createParser(fn)
    if p is None:
        out.append(None)
    else:
        with p:
            out.append([type(p).__name__, len(p), p.size, p.description])
print(json.dumps({"db": [p.__name__ for p in HachoirParserList.getInstance()], "out": out}))
"""


def process_case(res, rng):
    tmp = tempfile.mkdtemp(prefix="c13-")
    try:
        files = []
        for i in range(14):
            data, name, kind = content(rng)
            fn = os.path.join(tmp, "%d_%s" % (i, os.path.basename(name)))
            with open(fn, "wb") as fp:
                fp.write(data)
            files.append(fn)
        base = None
        for k in range(3):
            order = list(files)
            if k:
                rng.shuffle(order)
            mods = ["hachoir.parser." + m for m in ("archive", "image", "video", "audio", "misc", "program", "game",
                                                    "container", "file_system", "network")]
            spec = {"files": order, "imports": rng.sample(mods, rng.randint(1, 4)) if k else [], "junk": rng.randrange(9000)}
            sf = os.path.join(tmp, "spec%d.json" % k)
            with open(sf, "w") as fp:
                json.dump(spec, fp)
            # the first import decides the order in which modules are loaded
            e = env.child_env(PYTHONHASHSEED=str(rng.randrange(1, 4000000000)) if k else "0",
                              LC_ALL=rng.choice(("C", "C.UTF-8", "POSIX")), TZ=rng.choice(("UTC", "Asia/Tokyo")))
            r = subprocess.run([env.PYTHON, "-c", CHILD, sf], env=e, cwd=rng.choice((tmp, "/")), stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if r.returncode:
                res.fail("process:status", "process fails: %s" % r.stderr[-800:])
                return
            d = json.loads(r.stdout)
            ans = dict(zip(order, d["out"]))
            res.expect(d["db"] == [p.__name__ for p in DB], "process:list",
                       "the list of parsers depends on the process (imports %s)" % spec["imports"])
            if base is None:
                base = ans
            else:
                bad = [f for f in files if base[f] != ans[f]]
                res.expect(not bad, "process:choice", lambda: "%s: %r, %r in another process (imports %s)" % (
                    os.path.basename(bad[0]), base[bad[0]], ans[bad[0]], spec["imports"]))
            res.ev("processes")
        for fn in files:
            p = createParser(fn)
            got = None
            if p is not None:
                with p:
                    got = type(p).__name__
            res.expect(got == (base[fn] and base[fn][0]), "process:here", "%s: %s here, %r there" % (fn, got, base[fn]))
        res.seen("process", sorted(str(v) for v in base.values()))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def history_case(res, rng):
    """The answers do not depend on what was asked before, nor on what was
    done with the previous parsers."""
    items = [content(rng) for _ in range(10)]
    ans = {}
    for rnd in range(3):
        order = list(range(len(items)))
        rng.shuffle(order)
        for i in order:
            data, name, _ = items[i]
            p = guessParser(StringInputStream(data, tags=(("filename", name),)))
            got = ident(p)
            if p is not None and rng.random() < .5:
                n = 0
                for f in p:
                    n += 1
                    if n > 40:
                        break
            res.expect(ans.setdefault(i, got) == got, "history", "%s: %s, then %s" % (name, ans[i], got))
    res.ev("histories")


def file_stream_case(res, rng, tmp):
    """FileInputStream leaves its arguments alone."""
    fn = os.path.join(tmp, "s.bin")
    with open(fn, "wb") as fp:
        fp.write(b"0123456789abcdef")
    tags = random_tags(rng, "x.png")
    for arg in (list(tags), tuple(tags)):
        keep = list(arg)
        kw = rng.choice(({}, {"offset": 2}, {"offset": 3, "size": 5}, {"size": 4}))
        with FileInputStream(fn, tags=arg, **kw) as s:
            res.expect(list(arg) == keep, "stream:tags", "FileInputStream(%s): tags became %r" % (kw, desc(arg)))
            res.expect(list(s.tags[:len(keep)]) == keep, "stream:kept", "FileInputStream(%s): stream tags %r, given %r" % (
                kw, desc(s.tags), desc(keep)))
    res.ev("file streams")


def case(arg):
    kind, n = arg
    rng = rng_for(PID, SEED, kind, n)
    res = Result()
    if kind == "list":
        list_case(res)
    elif kind == "sample":
        sample_case(res, n)
    elif kind == "guess":
        for _ in range(6):
            guess_case(res, rng)
    elif kind == "create":
        tmp = tempfile.mkdtemp(prefix="c13-")
        try:
            for _ in range(4):
                create_case(res, rng, tmp)
            file_stream_case(res, rng, tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    elif kind == "process":
        process_case(res, rng)
    else:
        history_case(res, rng)
    return res


def main():
    c = check.Check(PID, "one query: (parser chosen, hints, kind of content)",
                    required=("parsers", "samples recognised", "guesses: none", "guesses: forced", "guesses: accepted",
                              "guesses after refusals", "createParser: found", "createParser: none", "processes",
                              "histories", "effective hints", "declared magic numbers met in a sample",
                              "contents refused with a reason"))
    cases = [("list", 0)] + [("sample", n) for n in range(len(corpus.names()))]
    k = c.n(1, 20)
    for n in range(60 * k):
        cases += [("guess", 3 * n + i) for i in range(3)] + [("create", 2 * n), ("create", 2 * n + 1), ("history", n)]
        if n % 4 == 0:
            cases.append(("process", n))
    c.run(case, cases, timeout=240, deadline=c.deadline(60, 900), on_timeout=c.note_timeout)
    return c.finish()


if __name__ == "__main__":
    raise SystemExit(main())
