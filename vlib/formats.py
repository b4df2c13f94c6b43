"""Monitors of the format properties (C20-C23).

1. Ground truth: files written by vlib.gen from the definition of the format;
   every fact that was encoded is looked up in the tree and in the metadata of
   the parser, read in a random order, from memory or from a file.
2. Recordings: the trees of the sample files (path, address, size, value,
   display, description of each field), the metadata, MIME type, suffix and
   content size, against the recording vlib/ref/samples.json, made by
   tools/mkref.py and reviewed when it changes."""
import base64
import hashlib
import json
import os
import tempfile

from vlib import check, corpus, env, facts, gen
from vlib.check import Result, rng_for
from vlib.env import SEED
from hachoir.metadata import extractMetadata
from hachoir.parser import HachoirParserList
from hachoir.parser.guess import guessParser
from hachoir.stream import FileInputStream, StringInputStream

REF = os.path.join(os.path.dirname(__file__), "ref", "samples.json")
BY_ID = {p.getParserTags()["id"]: p for p in HachoirParserList.getInstance()}
MAX_FIELDS = 6000
HASH = 3
GROUPS = {"C20": "archive", "C21": "image", "C22": "media", "C23": "misc"}
CATEGORIES = {"archive": "C20", "image": "C21", "audio": "C22", "video": "C22", "container": "C22"}
TAGS_OF_ID = {"swf": "C22"}


def prop_of(parser):
    tags = parser.getParserTags()
    return TAGS_OF_ID.get(tags["id"]) or CATEGORIES.get(tags["category"], "C23")


# ------------------------------------------------------------- ground truth

def open_gen(g, rng, directory=None):
    """Parser of a generated file, from memory or from a file on disk."""
    cls = BY_ID[g.parser]
    if directory is None:
        return cls(StringInputStream(g.data), validate=True)
    path = os.path.join(directory, "file.bin")
    with open(path, "wb") as fp:
        fp.write(g.data)
    return cls(FileInputStream(path), validate=True)


def tmp_root():
    return "/dev/shm" if os.access("/dev/shm", os.W_OK) else None


def gen_case(pid, name, k):
    res = Result()
    rng = rng_for(pid, SEED, "gen", name, k)
    g = gen.make(name, rng)
    res.seen(g.data)
    label = "%s #%s" % (name, k)
    key = "%s:" % name
    with tempfile.TemporaryDirectory(dir=tmp_root()) as tmp:
        try:
            p = open_gen(g, rng, tmp if rng.random() < .3 else None)
        except Exception as err:
            res.fail(key + "refused", "%s: the parser %s refuses a well-formed file: %s: %s" % (
                label, g.parser, type(err).__name__, err), hex=g.data[:200].hex())
            res.evals += 1
            return res
        res.ev("files of " + name)
        first_meta = rng.random() < .3
        meta = None

        def get_meta():
            try:
                return extractMetadata(p, quality=1.0)
            except Exception as err:
                res.fail(key + "metadata-error", "%s: extractMetadata: %s: %s" % (label, type(err).__name__, err))
        if g.meta and first_meta:
            meta = get_meta()
        saved = g.facts
        g.facts = list(saved)
        if rng.random() < .7:
            rng.shuffle(g.facts)
        for k_, msg in facts.check_tree(g, p):
            res.fail(k_, "%s: %s" % (label, msg), head=g.data[:200].hex())
        g.facts = saved
        res.evals += len(g.facts)
        res.ev("facts looked up in trees", len(g.facts))
        if g.meta:
            if not first_meta:
                meta = get_meta()
            for k_, msg in facts.check_meta(g, meta):
                res.fail(k_, "%s: %s" % (label, msg), head=g.data[:200].hex())
            res.evals += len(g.meta)
            res.ev("facts looked up in metadata", len(g.meta))
        d = getattr(g, "description", None)
        if d is not None:
            res.expect(p.description.startswith(d), key + "description", "%s: description %r instead of %r" % (
                label, p.description, d))
        if g.size is not None:
            lo, hi = g.size if isinstance(g.size, tuple) else (g.size, g.size)
            cs = p.content_size
            res.expect(cs is not None and lo * 8 <= cs <= hi * 8, key + "content_size",
                       "%s: content size %s bits, the format says %s..%s bytes" % (label, cs, lo, hi))
        if k < 2:
            res.samples.append("%s: %d bytes, %d facts, e.g. %s" % (label, len(g.data), len(g.facts) + len(g.meta),
                                                                   str((g.facts or g.meta)[-1])[:120]))
        try:
            p.stream._input.close() if hasattr(p.stream, "_input") and hasattr(p.stream._input, "close") else None
        except Exception:
            pass
    return res


# --------------------------------------------------------------- recordings

def text(fn):
    try:
        v = fn()
    except Exception as err:
        return "<%s>" % type(err).__name__
    if isinstance(v, (bytes, bytearray)):
        return "bytes:%s:%s" % (len(v), hashlib.blake2b(bytes(v), digest_size=8).hexdigest())
    if isinstance(v, float):
        return "%.12g" % v
    if isinstance(v, (str, int, bool)) or v is None:
        return "%s:%s" % (type(v).__name__, v)
    return "%s" % (v,)


def fields(root, limit):
    """Fields in file order, sets before their content; a set gives at most
    `per` of its children, so that every part of the file is looked at."""
    out = []

    def visit(fs, per):
        n = 0
        for f in fs:
            if len(out) >= limit:
                return
            out.append(f)
            if f.is_field_set:
                visit(f, max(8, per // 4))
            n += 1
            if n >= per:
                return
    try:
        visit(root, 400)
    except Exception as err:
        out.append(err)
    return out


def facts_of(f):
    if isinstance(f, Exception):
        return ["error", type(f).__name__]
    return [f.path, f.absolute_address, f.size, text(lambda: f.value) if not f.is_field_set else "set",
            text(lambda: f.display), text(lambda: f.description)]


def hash_of(items):
    return hashlib.blake2b(repr(items).encode("utf-8", "backslashreplace"), digest_size=HASH).digest()


def record(name):
    """Recording of a sample file: dict, and the facts behind the hashes"""
    data = corpus.load(name)
    p = guessParser(StringInputStream(data, source="file:" + name, tags=(("filename", name),)))
    fs = [facts_of(f) for f in fields(p, MAX_FIELDS)]
    head = {"parser": p.getParserTags()["id"], "mime": text(lambda: p.mime_type), "suffix": text(lambda: p.filename_suffix),
            "content_size": text(lambda: p.content_size), "description": text(lambda: p.description)}
    try:
        meta = extractMetadata(guessParser(StringInputStream(data, source="file:" + name, tags=(("filename", name),))), quality=1.0)
        head["metadata"] = meta.exportPlaintext() if meta is not None else None
    except Exception as err:
        head["metadata"] = "<%s>" % type(err).__name__
    return p, head, fs


def sample_case(pid, name, ref):
    res = Result()
    p, head, fs = record(name)
    res.seen("sample", name)
    for k in sorted(head):
        if k == "metadata":
            got, exp = head[k], ref["head"][k]
            bad = got if not isinstance(got, list) or not isinstance(exp, list) else \
                ["%r instead of %r" % (a, b) for a, b in zip(got + [None] * len(exp), exp + [None] * len(got)) if a != b][:4]
            res.expect(got == exp, "sample:%s:metadata" % name, "%s: metadata: %s" % (name, bad))
            res.evals += len(got) if isinstance(got, list) else 0
        else:
            res.expect(head[k] == ref["head"][k], "sample:%s:%s" % (name, k),
                       "%s: %s is %r instead of %r" % (name, k, head[k], ref["head"][k]))
    exp = base64.b85decode(ref["fields"])
    exp = [exp[i:i + HASH] for i in range(0, len(exp), HASH)]
    n = 0
    for i in range(max(len(fs), len(exp))):
        res.evals += 1
        if i >= len(fs):
            res.fail("sample:%s:missing" % name, "%s: %d fields instead of %d" % (name, len(fs), len(exp)))
            break
        if i >= len(exp):
            res.fail("sample:%s:more" % name, "%s: more fields than recorded, first: %s" % (name, fs[i]))
            break
        if hash_of(fs[i]) != exp[i]:
            n += 1
            if n <= 2:
                res.fail("sample:%s:%s" % (name, facts.generic(str(fs[i][0]))),
                         "%s: field #%d differs from the recording: %r" % (name, i, fs[i]))
            if n > 50:
                break
    res.ev("fields compared with recordings", len(fs))
    res.ev("sample files")
    return res


def case(c):
    pid, kind, name, k = c
    if kind == "gen":
        return gen_case(pid, name, k)
    with open(REF) as fp:
        return sample_case(pid, name, json.load(fp)[name])


def main(pid, quick, thorough):
    c = check.Check(pid, "generated file, by content; sample file",
                    required=("facts looked up in trees", "sample files", "fields compared with recordings"))
    c.assumptions = ["a recorded tree of a sample file is right: it was reviewed against the format when it was recorded"]
    names = gen.names(GROUPS[pid])
    with open(REF) as fp:
        ref = json.load(fp)
    have = set(corpus.names())
    cases = [(pid, "sample", s, 0) for s in sorted(ref) if ref[s]["property"] == pid and s in have]
    n = c.n(quick, thorough)
    cases += [(pid, "gen", name, k) for k in range(n) for name in names]
    c.run(case, cases, timeout=240, deadline=c.deadline(150, 3000), on_timeout=c.note_timeout)
    for name in names:
        if not c.events.get("files of " + name) and not any(v.startswith(name + ":") for v in c.viol):
            c.problems.append("no file of %s was parsed" % name)
    return c.finish()
