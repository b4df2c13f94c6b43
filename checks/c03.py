"""C03: lazy parsing is unobservable.

The reference record of a tree is taken by one plain depth-first reading of a
fresh parse. Other fresh parses are driven by random access schedules; what
they returned at the time, and the whole tree afterwards, must be the same."""
from vlib import check, corpus, sources, tree
from vlib.check import Result, rng_for
from vlib.env import SEED
from hachoir.field import MissingField, isString

PID = "C03"
ATTRS = ("value", "display", "raw_display", "description", "type", "has", "strlen", "charset")
MAXF = 1500


def show(v):
    if isinstance(v, (bytes, str)) and len(v) > 200:
        return (v[:200], len(v))
    if v.__class__.__module__.startswith("hachoir.field") or hasattr(v, "is_field_set"):
        return "field:" + v.path
    if isinstance(v, (bytes, str, int, bool, type(None))):
        return v
    return str(v)


def attr(f, a):
    if a == "type":
        return f.getFieldType()
    if a == "has":
        return f.hasValue()
    if a in ("strlen", "charset"):
        if not isString(f):
            return None
        a = {"strlen": "length"}.get(a, a)
    try:
        v = getattr(f, a)
    except Exception as err:
        return ("exception", type(err).__name__)
    try:
        return show(v)
    except Exception as err:
        return ("show", type(err).__name__)


def record(root, limit):
    """path -> (class, address, size, index, values...) in reading order"""
    out = {}
    stack = [root]
    while stack:
        fs = stack.pop()
        subs = []
        for i, f in enumerate(fs):
            vals = tuple(attr(f, a) for a in ATTRS)
            out[f.path] = (type(f).__name__, f.absolute_address, f.size, i) + vals
            if f.is_field_set:
                subs.append(f)
            if len(out) >= limit:
                return out, False
        stack.extend(reversed(subs))
    return out, True


def schedule(rng, root, ref, paths, seen, steps):
    """Random accesses; append (path, attribute, value) to seen."""
    known = [root]
    iters = []
    ops = []
    for _ in range(steps):
        r = rng.randrange(20)
        f = None
        fs = rng.choice(known)
        if fs.is_field_set and fs is not root and rng.random() < .3:
            fs = rng.choice([k for k in known if k.is_field_set])
        if r < 3 and paths:
            op = "path"
            p = rng.choice(paths)
            try:
                f = root[p]
            except MissingField:
                seen.append((p, "lookup", None, op))
        elif r < 4 and paths:
            op = "parts"
            p = rng.choice(paths)
            f = root
            try:
                for part in p[1:].split("/"):
                    f = f[part]
            except MissingField:
                f = None
                seen.append((p, "lookup", None, op))
        elif not fs.is_field_set:
            op = "attr"
            f = fs
        elif r < 6:
            op = "iter"
            it = iter(fs)
            iters.append(it)
            f = next(it, None)
        elif r < 9 and iters:
            op = "next"
            it = rng.choice(iters)
            for _ in range(rng.randint(1, 5)):
                f = next(it, f)
        elif r == 9:
            op = "more"
            fs.readMoreFields(rng.randint(1, 6))
        elif r == 10:
            op = "first"
            fs.readFirstFields(rng.randint(1, 10))
        elif r == 11:
            op = "len"
            seen.append((fs.path, "len", len(fs), op))
        elif r == 12:
            op = "size"
            seen.append((fs.path, "size", fs.size, op))
        elif r == 13:
            op = "index"
            k = rng.randrange(12)
            try:
                f = fs.getField(k, const=False)
                seen.append((f.path, "index", k, op))
            except MissingField:
                pass
        elif r == 14:
            op = "address"
            fs.getFieldByAddress(rng.randrange(600), feed=rng.random() < .5)
        elif r == 15:
            op = "array"
            names = [n.rsplit("/", 1)[-1].rsplit("[", 1)[0] for n in rng.sample(paths, min(3, len(paths)))]
            arr = fs.array(rng.choice(names + ["nosuch"]))
            f = None
            if rng.random() < .5:
                len(arr)
            else:
                for f in arr:
                    if rng.random() < .5:
                        break
        elif r == 16:
            op = "contains"
            rng.choice(("nosuch", "a[0]", "nosuch/x", "../nosuch")) in fs
        elif r == 17:
            op = "eof"
            if not fs.done:
                try:
                    fs.eof
                except AssertionError:
                    pass
        elif r == 18:
            op = "rootattr"
            for a in ("mime_type", "content_size", "filename_suffix", "description"):
                if hasattr(type(root), a):
                    getattr(root, a)
        else:
            op = "attr"
            f = fs
        ops.append(op)
        if f is not None:
            if f not in known and len(known) < 200:
                known.append(f)
            if f is not root and rng.random() < .6:
                for a in rng.sample(ATTRS, rng.randint(1, 6)):
                    v = attr(f, a)
                    if a in ATTRS:
                        seen.append((f.path, a, v, op))
    return ops


def compare(res, ref, complete, got, lab, where, how):
    if complete and list(got) != list(ref):
        d = next(((a, b) for a, b in zip(got, ref) if a != b), None) or (len(got), len(ref))
        res.fail("paths/" + lab, "%s: other fields: %r (%s)" % (how, d, where))
        return
    for p, r in ref.items():
        g = got.get(p)
        if g != r:
            what = "lost"
            if g is not None:
                what = ("class", "address", "size", "index")[:4] + ATTRS
                what = what[[i for i in range(len(r)) if g[i] != r[i]][0]]
            res.fail("%s/%s/%s" % (what, lab, r[0]), "%s: %s is %r, was %r (%s)" % (how, p, g, r, where))
            return
    res.evals += len(ref)


def case(seed):
    res = Result()
    seed, rep = seed if isinstance(seed, tuple) else (seed, 0)
    rng = rng_for(PID, SEED, seed, rep)
    if isinstance(seed, str):
        src = sources.corpus_src(seed, cap=None if rep == 0 else rng.choice((None, 60000, 5000)))
    elif seed % 5:
        src = sources.synth_src(rng)
    else:
        src = sources.hostile_src(rng, cap=16384, forced=.05)
    try:
        root = src.open()
    except Exception:
        return res
    if root is None:
        return res
    lab = src.kind if src.kind in ("fit", "wild") else type(root).__name__
    limit = MAXF
    ref, complete = record(root, limit)
    res.ev("trees_" + src.kind)
    res.ev("fields", len(ref))
    again, c2 = record(src.open(), limit)
    compare(res, ref, complete, again, lab, src.label, "second parse")
    paths = list(ref)
    for round_ in range(3):
        root = src.open()
        seen = []
        try:
            ops = schedule(rng, root, ref, paths, seen, rng.choice((5, 20, 60)))
        except Exception as err:
            res.fail("raise/%s/%s" % (lab, type(err).__name__), "access schedule raised %r in %s (%s)"
                     % (err, tree.where(err), src.label))
            continue
        res.ev("accesses", len(ops))
        where = "%s; %s" % (src.label, ",".join(ops))
        for p, a, v, op in seen:
            if p not in ref:
                continue
            r = ref[p]
            if a == "lookup":
                res.fail("lookup/" + lab, "%s: %s not found (%s)" % (op, p, where))
                continue
            if a == "len":
                continue
            exp = {"size": r[2], "index": r[3]}.get(a)
            if a in ATTRS:
                exp = r[4 + ATTRS.index(a)]
            res.expect(v == exp, "first-%s/%s/%s" % (a, lab, r[0]),
                       lambda: "%s of %s by %s is %r, was %r (%s)" % (a, p, op, v, exp, where))
        got, c3 = record(root, limit)
        compare(res, ref, complete, got, lab, where, "after schedule")
        res.seen(lab, ops)
    # reset
    if complete and src.kind != "hostile":
        root = src.open()
        if rng.random() < .7:
            list(root)
        root.reset()
        got, c4 = record(root, limit)
        compare(res, ref, complete, got, "reset-" + lab, src.label, "after reset of the root")
        sets = [f for f in root if f.is_field_set and f.size
                and (src.kind == "fit" or src.kind == "wild" and not tree.is_seekable(f))]
        if sets:
            fs = rng.choice(sets)
            list(fs)
            fs.reset()
            got, c5 = record(root, limit)
            compare(res, ref, complete, got, "subreset-" + lab, src.label, "after reset of " + fs.path)
        res.ev("resets")
    if seed == 2:
        res.samples.append({"tree": src.label, "fields": len(ref), "ops": ops})
    return res


def main():
    c = check.Check(PID, "one evaluation: one field whose record (class, address, size, index, value, displays, "
                         "description) was compared between two parses; distinct: (kind of tree, access schedule)",
                    required=("trees_fit", "trees_wild", "trees_hostile", "trees_corpus", "accesses", "resets"))
    cases = [(n, r) for r in range(c.n(3, 30)) for n in corpus.names()] + list(range(c.n(16000, 300000)))
    c.run(case, cases, timeout=240, deadline=c.deadline(200, 2600), on_timeout=c.note_timeout)
    return c.finish()


if __name__ == "__main__":
    raise SystemExit(main())
