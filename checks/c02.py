"""C02: names, paths, indexes and addresses identify fields uniquely."""
import re

from vlib import check, corpus, sources, tree
from vlib.check import Result, rng_for
from vlib.env import SEED
from hachoir.field import MissingField, Link, FieldError

PID = "C02"
ARRAY = re.compile(r"^(.*)\[(\d+)\]$", re.S)


def lookup(fs, key, const=False):
    try:
        return fs.getField(key, const)
    except MissingField:
        return None


def missing(res, fs, key, tname, where):
    """key does not exist: documented error, not contained."""
    try:
        f = fs[key]
    except MissingField as err:
        try:
            str(err)
        except Exception as e:
            res.fail("missing-str/" + tname, "str(MissingField) of %r: %r" % (key, e))
        res.evals += 1
    except Exception as err:
        res.fail("missing-error/" + tname, "%s[%r] raised %r (%s)" % (fs.path, key, err, where))
    else:
        res.fail("missing-found/" + tname, "%s[%r] returned %s (%s)" % (fs.path, key, f.path, where))
        return
    res.expect(key not in fs, "missing-in/" + tname, lambda: "%r in %s (%s)" % (key, fs.path, where))


def monitor(res, rng, src, root, fs, ch, where):
    lab = src.kind if src.kind in ("fit", "wild") else type(root).__name__
    tname = "%s/%s" % (lab, type(fs).__name__)
    names = [f.name for f in ch]
    n = len(ch)
    byname = {}
    for f in ch:
        if f.name in byname:
            res.fail("duplicate/" + tname, "%s has two fields %r (%s)" % (fs.path, f.name, where))
            return
        byname[f.name] = f
    res.evals += n
    # arrays: numbered in creation order
    arrays = {}
    for f in ch:
        if f.name.endswith("[]"):
            res.fail("unnumbered/" + tname, "%s is not numbered (%s)" % (f.path, where))
        m = ARRAY.match(f.name)
        if m:
            arrays.setdefault(m.group(1), []).append(int(m.group(2)))
    for base, nums in arrays.items():
        if src.kind not in ("fit", "wild"):
            break               # parsers also use literal names like "coeff[5]"
        if src.kind == "wild" and base in ("a", "dup"):
            continue        # the program also uses literal a[0] names
        res.expect(nums == sorted(nums) or tree.is_seekable(fs), "array-order/" + tname,
                   lambda: "%s: %s[] are numbered %s (%s)" % (fs.path, base, nums[:20], where))
        if src.kind == "fit":
            res.expect(sorted(nums) == list(range(len(nums))), "array-numbers/" + tname,
                       lambda: "%s: %s[] are numbered %s (%s)" % (fs.path, base, nums[:20], where))
    pick = list(range(n)) if n <= 60 else sorted(set(
        list(range(8)) + list(range(n - 8, n)) + rng.sample(range(n), 30)))
    abs0 = fs.absolute_address
    seek = tree.is_seekable(fs)
    for i in pick:
        f = ch[i]
        what = None
        if f.parent is not fs:
            what = "parent"
        elif f.index != i or fs.getFieldIndex(f) != i:
            what = "index"
        elif lookup(fs, i) is not f or lookup(fs, i, True) is not f:
            what = "by-index"
        elif "/" not in f.name and f.name.strip("."):
            if fs[f.name] is not f or lookup(fs, f.name, True) is not f:
                what = "by-name"
            elif f.name not in fs:
                what = "in"
            elif fs["./" + f.name] is not f:
                what = "dot"
            elif not isinstance(f, Link) and f["../" + f.name] is not f:
                what = "dotdot"
        if what is None and "/" not in f.name and "/" not in "".join(p for p in anc_names(fs)):
            if f.path != (fs.path if fs.path != "/" else "") + "/" + f.name:
                what = "path"
            elif root[f.path] is not f:
                what = "root-path"
            elif fs[f.path] is not f or f[f.path] is not f:
                what = "absolute-path"
            elif root[f.path[1:]] is not f:
                what = "relative-path"
            elif isinstance(f, Link):
                pass            # a path through a link goes on from its target
            elif f[".."] is not fs or f["."] is not f or f["/"] is not root:
                what = "dots"
            elif fs.parent is not None and f["..."] is not fs.parent:
                what = "dots3"
        if what is None and f.absolute_address != abs0 + f.address:
            what = "absolute-address"
        if what is None and f.size and f.size > 0:
            if not isinstance(f.size, int) or not isinstance(f.address, int):
                res.fail("size-type/" + type(f).__name__, "size %r, address %r of %s (%s)" % (
                    f.size, f.address, f.path, where))
                continue
            for a in {f.address, f.address + f.size - 1, f.address + rng.randrange(f.size)}:
                g = fs.getFieldByAddress(a)
                if g is f:
                    continue
                if seek and g is not None and g.address <= a < g.address + g.size:
                    continue     # overlapping fields
                what = "by-address"
        res.evals += 9
        if what:
            res.fail("%s/%s" % (what, tname), "%s: field %s of %s (%s)" % (what, f.name, fs.path, where))
    if seek:
        res.ev("seekable_sets")
    # outside
    last = max((f.address + f.size for f in ch), default=0)
    res.expect(fs.getFieldByAddress(max(last, fs.size)) is None, "address-end/" + tname,
               lambda: "%s: a field at its end (%s)" % (fs.path, where))
    for key in (n, n + 5):
        try:
            f = fs.getField(key, False)
            res.fail("index-found/" + tname, "%s: field %s of %s returned %s" % (fs.path, key, n, f.path))
        except MissingField:
            pass
    try:
        fs.getField(-1, False)
        res.fail("index-negative/" + tname, "%s: negative index accepted" % fs.path)
    except KeyError:
        pass
    # things which do not exist
    bad = ["nosuch", "nosuch[0]", "x/y/z"]
    if names:
        nm = rng.choice(names)
        bad += [nm + "_", nm[:-1] if nm[:-1].strip(".") else "zz", nm + "/nosuch"]
        for base, nums in list(arrays.items())[:3]:
            bad += ["%s[%d]" % (base, max(nums) + 1), base + "[]", "%s[-1]" % base, "%s[00]" % base]
            if base not in byname:
                bad.append(base)
    for key in bad:
        top = key.split("/")[0]
        if top in byname and ("/" not in key or isinstance(byname[top], Link)):
            continue
        missing(res, fs, key, tname, where)
    up = "." * (depth(fs) + 3)
    missing(res, fs, up + "/" + (names[0] if names else "x"), tname, where)
    # arrays
    for base, nums in list(arrays.items())[:4]:
        if "/" in base:
            continue
        nums = set(nums)
        k = 0
        while k in nums:
            k += 1
        arr = fs.array(base)
        order = rng.randrange(4)
        if order == 0 and max(nums) > 0:
            try:
                arr[max(nums) + 7]
                res.fail("array-item/" + tname, "%s.array(%r)[%s] exists (%s)" % (
                    fs.path, base, max(nums) + 7, where))
            except MissingField:
                pass
        elif order == 1:
            arr[max(nums)]
        elif order == 2:
            res.expect(-1 not in arr, "array-negative/" + tname,
                       lambda: "-1 in %s.array(%r)" % (fs.path, base))
        got = list(arr) if k < 300 else [arr[i] for i in range(0, k, 17)]
        exp = [byname["%s[%d]" % (base, i)] for i in (range(k) if k < 300 else range(0, k, 17))]
        ok = len(got) == len(exp) and all(a is b for a, b in zip(got, exp))
        res.expect(ok and len(arr) == k and bool(arr) == (k > 0), "array/" + tname,
                   lambda: "%s.array(%r): %s items, len %s, %s fields (%s)" % (
                       fs.path, base, len(got), len(arr), k, where))
        res.expect(all((i in arr) == (i in nums) for i in range(k + 2)), "array-in/" + tname,
                   lambda: "%s.array(%r): containment (%s)" % (fs.path, base, where))
        if fs is not root and "/" not in fs.path[1:]:
            sub = root.array(fs.name + "/" + base)
            res.expect(len(sub) == k, "array-path/" + tname, lambda: "root.array(%r)" % (fs.name + "/" + base))
        res.ev("arrays")
    for f in ch:
        if isinstance(f, Link):
            link(res, root, f, tname, where)


def link(res, root, f, tname, where):
    try:
        v = f.value
    except FieldError:
        return
    res.ev("links")
    if v is None:
        res.ev("links_unresolved")
        return
    inside = False
    g = v
    while g is not None:
        if g is root:
            inside = True
            break
        g = g.parent
    res.expect(inside, "link-outside/" + tname, lambda: "link %s -> %s (%s)" % (f.path, v.path, where))
    res.expect(root[v.path] is v, "link-path/" + tname, lambda: "link %s -> %s (%s)" % (f.path, v.path, where))
    if v.is_field_set and v is not f.parent and not isinstance(v, Link):
        for g in v:
            if "/" not in g.name:
                res.expect(f[g.name] is g, "link-through/" + tname, lambda: "%s[%r] (%s)" % (f.path, g.name, where))
            break


def anc_names(fs):
    while fs.parent is not None:
        yield fs.name
        fs = fs.parent


def depth(fs):
    return sum(1 for _ in anc_names(fs))


def case(seed):
    rng = rng_for(PID, SEED, seed)
    res = Result()
    if isinstance(seed, str):
        src = sources.corpus_src(seed)
    elif seed % 4:
        src = sources.synth_src(rng)
    else:
        src = sources.hostile_src(rng, cap=24576)
    try:
        root = src.open()
    except Exception:
        return res
    if root is None:
        return res
    where = src.label
    res.ev("trees_" + src.kind)
    if rng.random() < .5:
        where += " after " + ",".join(sources.touch(rng, root))
    res.expect(root.path == "/" and root.parent is None and root.index is None and root["/"] is root
               and root.name == "root", "root", lambda: "root identity (%s)" % where)
    for fs, ch in sources.all_sets(root, rng, cap=300 if src.kind == "corpus" else 60):
        monitor(res, rng, src, root, fs, ch, where)
        res.ev("sets")
        res.ev("fields", len(ch))
        res.seen(type(root).__name__, src.kind, type(fs).__name__, len(ch), sorted(f.name for f in ch[:30]))
    if seed == 1:
        res.samples.append({"input": where, "names": [f.path for f in root][:12]})
    return res


def main():
    c = check.Check(PID, "one evaluation: one lookup (by name, path, index, array, address, dots, or of something "
                         "absent) compared with the iteration order; distinct: (parser, set class, names of the set)",
                    required=("trees_fit", "trees_wild", "trees_hostile", "trees_corpus", "arrays", "links",
                              "seekable_sets"))
    cases = list(corpus.names()) + list(range(c.n(40000, 800000)))
    c.run(case, cases, timeout=240, deadline=c.deadline(170, 2400), on_timeout=c.note_timeout)
    return c.finish()


if __name__ == "__main__":
    raise SystemExit(main())
