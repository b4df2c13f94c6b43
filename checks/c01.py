"""C01: a parsed tree tiles its input."""
from vlib import check, corpus, sources, tree
from vlib.check import Result, rng_for
from vlib.env import SEED

PID = "C01"


def tiles(res, src, root, fs, ch, where):
    """Direct arithmetic on one completely read set."""
    lab = src.kind if src.kind in ("fit", "wild") else type(root).__name__
    tname = "%s/%s" % (lab, type(fs).__name__)
    seek = tree.is_seekable(fs)
    size = fs.size
    abs0 = fs.absolute_address
    total = 8 * len(src.data)
    res.expect(fs.done, "done/" + tname, lambda: "%s is not done after reading it (%s)" % (fs.path, where))
    res.expect(len(fs) == len(ch), "len/" + tname,
               lambda: "len(%s)=%s but %s fields (%s)" % (fs.path, len(fs), len(ch), where))
    if fs is root:
        res.expect(size == total and fs.address == 0, "root/" + tname,
                   lambda: "root has size %s, the input %s (%s)" % (size, total, where))
    if size is None:
        res.fail("nosize/" + tname, "%s has no size (%s)" % (fs.path, where))
        return
    res.expect(abs0 + size <= total, "eof/" + tname,
               lambda: "%s [%s+%s] ends after the input (%s)" % (fs.path, abs0, size, where))
    pos = 0
    blocks = []
    ok = True
    for i, f in enumerate(ch):
        a, s = f.address, f.size
        if s is None or s < 0 or (f.is_field_set and s == 0):
            res.fail("fieldsize/" + tname, "%s has size %s (%s)" % (f.path, s, where))
            return
        if not isinstance(s, int) or not isinstance(a, int):
            res.fail("int/" + tname, "%s: address %r, size %r (%s)" % (f.path, a, s, where))
            return
        if f.parent is not fs or f.absolute_address != abs0 + a:
            res.fail("absolute/" + tname, "%s: parent or absolute address is wrong (%s)" % (f.path, where))
        if a < 0 or a + s > size:
            res.fail("bounds/" + tname, "%s [%s+%s] is outside its parent of %s bits (%s)"
                     % (f.path, a, s, size, where))
            ok = False
        if not seek and a != pos and ok:
            res.fail("gap/" + tname, "%s is at %s, the previous field ends at %s (%s)"
                     % (f.path, a, pos, where))
            ok = False
        pos = a + s
        blocks.append((a, pos, f.name))
    res.evals += len(ch)
    if not seek:
        res.expect(pos == size or not ok, "sum/" + tname,
                   lambda: "%s: the fields end at %s, the set at %s (%s)" % (fs.path, pos, size, where))
        return
    res.ev("seekable_sets")
    # seekable: the union is the whole set; an unparsed segment holds exactly
    # bits which no other field claims
    cur = 0
    for a, b, n in sorted(blocks):
        if a > cur:
            res.fail("hole/" + tname, "%s: no field covers bits %s..%s (%s)" % (fs.path, cur, a, where))
            break
        cur = max(cur, b)
    else:
        res.expect(cur == size, "cover/" + tname,
                   lambda: "%s: covered up to %s of %s (%s)" % (fs.path, cur, size, where))
    other = sorted((a, b) for a, b, n in blocks if not n.startswith("unparsed[") and b > a)
    un = sorted((a, b) for a, b, n in blocks if n.startswith("unparsed["))
    if other and un:
        res.ev("unparsed_segments", len(un))
        merged = []
        for a, b in other:
            if merged and a <= merged[-1][1]:
                merged[-1][1] = max(merged[-1][1], b)
            else:
                merged.append([a, b])
        j = 0
        for a, b in un:
            while j < len(merged) and merged[j][1] <= a:
                j += 1
            if j < len(merged) and merged[j][0] < b:
                res.fail("unparsed/" + tname, "%s: unparsed segment %s..%s overlaps a field (%s)"
                         % (fs.path, a, b, where))
                break


def prefix(res, src, root, fs, where):
    """A set which is still being read: what was read so far is contiguous."""
    if tree.is_seekable(fs):
        return
    pos = 0
    for i in range(fs.current_length):
        f = fs.getField(i)
        if f.address != pos:
            res.fail("prefix/" + src.kind, "%s is at %s, the previous field ends at %s (%s)"
                     % (f.path, f.address, pos, where))
            break
        pos += f.size
    if not fs.done:
        res.expect(fs.current_size == pos, "current_size/" + src.kind,
                   lambda: "%s: current_size=%s, the fields end at %s (%s)"
                   % (fs.path, fs.current_size, pos, where))
    res.ev("prefixes")


def case(seed):
    rng = rng_for(PID, SEED, seed)
    res = Result()
    if isinstance(seed, str):
        src = sources.corpus_src(seed)
    elif seed % 4:
        src = sources.synth_src(rng)
    else:
        src = sources.hostile_src(rng, cap=24576)
    try:
        root = src.open()
    except Exception:
        res.ev("rejected")
        return res
    if root is None:
        res.ev("no_parser")
        return res
    where = src.label
    res.ev("trees_" + src.kind)
    if rng.random() < .5:
        kinds = sources.touch(rng, root)
        where += " after " + ",".join(kinds)
        prefix(res, src, root, root, where)
        res.ev("touched")
    shape = []
    for fs, ch in sources.all_sets(root, rng, cap=600 if src.kind == "corpus" else 150):
        tiles(res, src, root, fs, ch, where)
        res.ev("sets")
        res.ev("fields", len(ch))
        if len(shape) < 40:
            shape.append((len(ch), fs.size))
        if not src.kind == "corpus" or len(ch) > 1:
            res.seen(type(root).__name__, src.kind, type(fs).__name__, len(ch), fs.size)
    if seed == 1:
        res.samples.append({"input": where, "sets": shape[:8]})
    return res


def main():
    c = check.Check(PID, "one evaluation: one field or set whose address, size and neighbours were compared "
                         "with the arithmetic of its set; distinct: (parser, set class, number of children, size)",
                    required=("trees_fit", "trees_wild", "trees_hostile", "trees_corpus", "seekable_sets",
                              "unparsed_segments", "prefixes"))
    cases = list(corpus.names()) + list(range(c.n(100000, 2000000)))
    c.run(case, cases, timeout=240, deadline=c.deadline(170, 2400), on_timeout=lambda *a: c.note_timeout(*a))
    return c.finish()


if __name__ == "__main__":
    raise SystemExit(main())
