"""C15: replacing fields, writing fields inside a field, events, ordered dictionary.

Oracle: a list model of every field set (name, address, size) which the same
operations are applied to; the bits of the input (values of the new fields);
a log of all events received by listeners of every set and of the root,
compared with the events which the operation documents."""
import re

from vlib import check, corpus, env, model, sources, synth, tree
from vlib.check import Result, rng_for
from vlib.env import SEED
from hachoir.core.dict import Dict, UniqKeyError
from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN
from hachoir.core.event_handler import EventHandler
from hachoir.field import (
    Bits, FieldError, FieldSet, MissingField, PaddingBits, PaddingBytes, ParserError, RawBits, RawBytes,
    UInt8, UInt16, UInt32, Int16, Bytes)

PID = "C15"
EVENTS = ("field-value-changed", "field-resized", "field-inserted", "field-replaced", "set-field-value")
ARRAY = re.compile(r"^(.*)\[(\d+)\]$", re.S)


# ------------------------------------------------------------- ordered Dict

class ModelDict:
    def __init__(self, items=()):
        self.items = list(items)

    def pos(self, key):
        for i, (k, v) in enumerate(self.items):
            if k == key:
                return i
        return None


def same_dict(res, d, m, what):
    keys = [k for k, v in m.items]
    vals = [v for k, v in m.items]
    ok = (list(d) == vals and list(d.values) == vals and list(d.itervalues()) == vals
          and list(d.iterkeys()) == keys and list(d.items()) == m.items and len(d) == len(keys))
    ok = ok and repr(d) == "{%s}" % ", ".join("%r: %r" % kv for kv in m.items)
    for i, (k, v) in enumerate(m.items):
        ok = ok and k in d and d.index(k) == i and d[k] == v and d.values[i] == v
    for k in ("k%d" % i for i in range(14)):
        if k not in keys:
            ok = ok and k not in d and d.index(k) is None
            try:
                d[k]
                ok = False
            except KeyError:
                pass
    res.expect(ok, "dict:state", lambda: "after %s: %r instead of %r" % (what, list(d.items()), m.items))
    return ok


def dict_case(res, rng):
    start = [("k%d" % i, i) for i in rng.sample(range(12), rng.randint(0, 6))]
    d = Dict(start) if start or rng.random() < .5 else Dict()
    m = ModelDict(start)
    log = [repr(start)]
    val = 100
    for _ in range(40):
        op = rng.randrange(7)
        key = "k%d" % rng.randrange(12)
        key2 = "k%d" % rng.randrange(12)
        n = len(m.items)
        idx = rng.randint(-n - 2, n + 2)
        val += 1
        want = got = None
        p = m.pos(key)
        before = list(m.items)
        if op in (0, 1):
            what = "append(%s)" % key
            if p is not None:
                want = UniqKeyError
            else:
                m.items.append((key, val))
            call = lambda: d.append(key, val)                     # noqa: E731
        elif op == 2:
            what = "d[%s]=" % key
            if p is None:
                want = KeyError
            else:
                m.items[p] = (key, val)
            call = lambda: d.__setitem__(key, val)                # noqa: E731
        elif op == 3:
            what = "del d[%d]" % idx
            if -n <= idx < n:
                del m.items[idx]
            else:
                want = IndexError
            call = lambda: d.__delitem__(idx)                     # noqa: E731
        elif op == 4:
            what = "insert(%d, %s)" % (idx, key)
            if p is not None:
                want = UniqKeyError
            elif -n <= idx <= n:
                m.items.insert(idx, (key, val))
            else:
                want = IndexError
            call = lambda: d.insert(idx, key, val)                # noqa: E731
        elif op == 5:
            what = "replace(%s, %s)" % (key, key2)
            if p is None:
                want = KeyError
            elif key2 != key and m.pos(key2) is not None:
                want = UniqKeyError
            else:
                m.items[p] = (key2, val)
            call = lambda: d.replace(key, key2, val)              # noqa: E731
        else:
            what = "replace(%s, %s)" % (key, key)
            if p is None:
                want = KeyError
            else:
                m.items[p] = (key, val)
            call = lambda: d.replace(key, key, val)               # noqa: E731
        try:
            call()
        except Exception as err:
            got = type(err)
        log.append(what)
        res.ev("dict operations")
        if want is not None:
            m.items = before
            res.ev("dict refusals")
        if want is not got and not (want and got and issubclass(got, want)):
            res.fail("dict:result", "%s: %r instead of %r (%s)" % (what, got, want, log[-6:]))
            return
        res.evals += 1
        if not same_dict(res, d, m, " ".join(log[-8:])):
            return
    res.seen("dict", tuple(log))


# ------------------------------------------------------------- event handler

class Listener:
    """Listeners which are equal but not the same"""

    def __init__(self, n, got):
        self.n = n
        self.got = got

    def __eq__(self, other):
        return isinstance(other, Listener)

    __hash__ = None

    def __call__(self, *args):
        self.got.append((self.n, args))


def handler_case(res, rng):
    made = []
    h = EventHandler()
    got, want = [], []
    handlers = {}
    for n in range(30):
        name = rng.choice("abcd")
        if rng.random() < .4:
            r = rng.random()
            if r < .5:
                def f(*args, n=n):
                    got.append((n, args))
            elif r < .8:
                f = Listener(n, got)
            elif made:
                n, f = rng.choice(made)     # connected again: called again
                res.ev("listeners connected again")
            else:
                continue
            made.append((n, f))
            h.connect(name, f)
            handlers.setdefault(name, []).append(n)
        else:
            args = tuple(rng.randrange(9) for _ in range(rng.randint(0, 3)))
            h.raiseEvent(name, *args)
            want += [(k, args) for k in handlers.get(name, ())]
    res.expect(got == want, "event handler", "%r instead of %r" % (got, want))


# ------------------------------------------------------------- field sets

class Two(FieldSet):
    """A set of two parts of given sizes"""

    def __init__(self, parent, name, size):
        FieldSet.__init__(self, parent, name, size=size)

    def createFields(self):
        half = self._size // 2 // 8 * 8 or self._size // 2
        if half:
            yield Bits(self, "low", half)
        yield Bits(self, "high", self._size - half)


class Log:
    """All events of a tree, as they are received."""

    def __init__(self, root, sets):
        self.events = []
        self.listeners = []
        for ev in EVENTS:
            root.connectEvent(ev, self.make("global", ev), local=False)
        for i, fs in enumerate(sets):
            for ev in EVENTS:
                fs.connectEvent(ev, self.make(i, ev))

    def make(self, who, ev):
        def handler(*args):
            self.events.append((who, ev, args))
        return handler


def layout(fs):
    return [(f.name, f.address, f.size, id(f)) for f in fs]


def value_of(f):
    try:
        return repr(f.value)
    except Exception as err:
        return "!" + type(err).__name__


def invariants(res, fs, size, what, tag):
    """The set is contiguous, names are unique, lookups agree."""
    pos = 0
    names = set()
    fields = list(fs)
    for i, f in enumerate(fields):
        ok = res.expect(f.address == pos, "contiguous/" + tag,
                        lambda: "%s: %s at %d instead of %d" % (what, f.path, f.address, pos))
        ok = ok and res.expect(f.name not in names, "unique/" + tag, lambda: "%s: two fields %s" % (what, f.name))
        ok = ok and res.expect(f.parent is fs and f.absolute_address == fs.absolute_address + f.address,
                               "parent/" + tag, lambda: "%s: %s" % (what, f.path))
        if not ok:
            return False
        names.add(f.name)
        pos += f.size
        for key in (i, f.name):
            try:
                g = fs[key]
            except MissingField:
                g = None
            if not res.expect(g is f, "lookup/" + tag, lambda: "%s: [%r] gives %r" % (what, key, g)):
                return False
        if not res.expect(fs.getFieldIndex(f) == i, "index/" + tag, lambda: "%s: %s" % (what, f.path)):
            return False
        if f.size:
            for a in (f.address, f.address + f.size - 1):
                g = fs.getFieldByAddress(a)
                if not res.expect(g is f, "by address/" + tag, lambda: "%s: %d gives %r" % (what, a, g)):
                    return False
    ok = res.expect(pos == size, "size/" + tag, lambda: "%s: fields of %s bits in %s" % (what, pos, size))
    ok = ok and res.expect(len(fs) == len(fields), "length/" + tag, what)
    ok = ok and res.expect(fs.size == size, "set size/" + tag, what)
    return ok


def numbered(names, given):
    """next number of an array: never one which was already used"""
    return names.get(given, -1) + 1


def random_name(rng, fs, old, k):
    r = rng.random()
    if r < .35:
        return "new%d" % rng.randrange(1000)
    if r < .6:
        return rng.choice(("x[]", "raw[]", "padding[]", "a[]", "y[]"))
    if r < .7:
        return old
    if r < .85:
        return rng.choice(list(fs._fields)).name
    return "dup%d" % rng.randrange(2)


def make_field(rng, fs, name, size, aligned):
    if size % 8 == 0 and aligned:
        n = size // 8
        r = rng.randrange(5)
        if r == 0 and n in (1, 2, 4):
            return {1: UInt8, 2: UInt16, 4: UInt32}[n](fs, name), "uint"
        if r == 1 and n == 2:
            return Int16(fs, name), "int16"
        if r == 2 and size >= 2:
            return Two(fs, name, size), "set"
        return (Bytes if r == 3 else RawBytes)(fs, name, n), "bytes"
    if size >= 2 and rng.random() < .3:
        return Two(fs, name, size), "set"
    return (RawBits if rng.random() < .5 else Bits)(fs, name, size), "bits"


def split(rng, size, n):
    """n positive sizes which add up to size"""
    if n == 1 or size < 2:
        return [size]
    if size % 8 == 0 and size // 8 >= n and rng.random() < .7:
        cuts = sorted(rng.sample(range(1, size // 8), n - 1))
        cuts = [8 * c for c in cuts]
    else:
        n = min(n, size)
        cuts = sorted(rng.sample(range(1, size), n - 1))
    return [b - a for a, b in zip([0] + cuts, cuts + [size])]


def new_value(f, kind, data, endian):
    a = f.absolute_address
    if kind == "bytes":
        return data[a // 8:(a + f.size) // 8] if a % 8 == 0 else None
    v = model.bits(data, a, f.size, endian)
    if kind == "int16":
        return model.signed(v, 16)
    return v


def tree_case(res, rng, src):
    root = src.open()
    if root is None:
        return
    endian = {BIG_ENDIAN: "big", LITTLE_ENDIAN: "little"}
    # all sets of the tree which are not seekable
    sets = []
    total = 0
    partial = rng.random() < .3
    ref = None
    if partial:
        # the other fields of the root come later
        ref = src.open()
        try:
            ref_layout = [(f.name, f.address, f.size) for f in ref]
        except Exception:
            return
        root.readFirstFields(rng.randint(1, 4))
        if root.done or tree.is_seekable(root) or root.size is None:
            partial = False
        else:
            sets = [root]
    if not partial:
        for fs, ch in tree.walk(root, limit=4000):
            total += len(ch)
            if not tree.is_seekable(fs) and ch and len(ch) <= 200 and type(fs).__name__ != "Fragment":
                sets.append(fs)
    if not sets:
        return
    watched = [fs for fs in sets if rng.random() < .6][:20]
    log = Log(root, watched)
    sizes = {id(fs): (fs.size if not partial else None) for fs in sets}
    done = []
    tag = "partial" if partial else "complete"
    outside = {}
    for step in range(rng.randint(3, 14)):
        fs = rng.choice(sets)
        if partial:
            fields = list(fs._fields)
        else:
            fields = list(fs)
        if not fields:
            continue
        values = [value_of(f) for f in fields[:60]]
        # (reading a value may read more fields)
        fields = list(fs._fields) if partial else fields
        before = [(f.name, f.address, f.size, id(f)) for f in fields]
        old = rng.choice(fields)
        pos = fields.index(old)
        # the event handlers of a replaced set have nothing more to say
        kids = [s for s in sets if s is not old and below(s, old)]
        mode = rng.randrange(10)
        log.events.clear()
        new, kinds, want, spec = [], [], None, None
        array_before = dict(fs._field_array_count)
        aligned = old.absolute_address % 8 == 0
        err = None
        try:
            if mode < 6:
                sizes_ = split(rng, old.size, rng.choice((1, 1, 2, 2, 3, 5)))
                if mode == 5:
                    sizes_[-1] += rng.choice((-1, 1, 8))
                    if sizes_[-1] <= 0:
                        sizes_[-1] = 3
                a = old.absolute_address
                for k, n in enumerate(sizes_):
                    f, kind = make_field(rng, fs, random_name(rng, fs, old.name, k), n, a % 8 == 0)
                    a += n
                    new.append(f)
                    kinds.append(kind)
                spec = [(f._name, f.size) for f in new]
                what = "%s replaceField(%s, %s)" % (fs.path, old.name, spec)
                offs = old.address
                call = lambda: fs.replaceField(old.name, new)          # noqa: E731
                events_fields = new
            elif mode < 9:
                # somewhere inside the old field
                n = rng.randint(1, 3)
                lo = rng.choice((0, 0, rng.randrange(old.size + 1), rng.randrange(old.size + 1) // 8 * 8))
                room = old.size - lo
                if mode == 8:
                    room += rng.choice((1, 8, 100))
                used = rng.choice((room, rng.randint(0, room), rng.randint(0, room) // 8 * 8))
                if not used:
                    continue
                a = old.absolute_address + lo
                for k, m in enumerate(split(rng, used, n)):
                    f, kind = make_field(rng, fs, random_name(rng, fs, old.name, k), m, a % 8 == 0)
                    a += m
                    new.append(f)
                    kinds.append(kind)
                spec = []
                if lo:
                    spec.append(("padding[]", lo))
                spec += [(f._name, f.size) for f in new]
                if lo + used < old.size:
                    spec.append(("padding[]", old.size - lo - used))
                what = "%s writeFieldsIn(%s, +%d, %s)" % (fs.path, old.name, lo, [(f._name, f.size) for f in new])
                address = old.address + lo
                call = lambda: fs.writeFieldsIn(old, address, new)     # noqa: E731
                if lo + used > old.size:
                    spec = None
            else:
                what = "%s replaceField(missing)" % fs.path
                f, kind = make_field(rng, fs, "new", old.size, aligned)
                new = [f]
                call = lambda: fs.replaceField("no such field", new)   # noqa: E731
                spec = None
        except FieldError as e:
            res.ev("field not created")
            continue
        # what must happen
        names = {b[0] for b in before}
        if spec is not None and sum(s for n, s in spec) != old.size:
            spec = None
        refused = spec is None
        expected = None
        if not refused:
            counts = dict(array_before)
            out = []
            for n, s in spec:
                if n.endswith("[]"):
                    b = n[:-2]
                    counts[b] = counts.get(b, -1) + 1
                    n = "%s[%d]" % (b, counts[b])
                out.append((n, s))
            outn = [n for n, s in out]
            if len(set(outn)) != len(outn) or any(n in names and n != old.name for n in outn):
                refused = True
            expected = out
        try:
            call()
        except (ParserError, AssertionError, UniqKeyError, ValueError) as e:
            err = e
        except Exception as e:
            res.fail("error:%s/%s" % (type(e).__name__, tag), "%s raises %r" % (what, e))
            return
        done.append(what)
        after = [(f.name, f.address, f.size, id(f)) for f in (fs._fields if partial else fs)]
        if refused:
            res.ev("refusals")
            if not res.expect(err is not None, "accepted/" + tag, "%s accepted" % what):
                return
            res.expect(after == before, "changed by refusal/" + tag, lambda: "%s: %s became %s" % (what, short(before), short(after)))
            res.expect(not log.events, "event of refusal/" + tag, lambda: "%s: %s" % (what, log.events))
            res.expect(dict(fs._field_array_count) == array_before or partial, "numbering of refusal/" + tag,
                       lambda: "%s: %s became %s" % (what, array_before, fs._field_array_count))
            continue
        if not res.expect(err is None, "refused/" + tag, lambda: "%s: %r" % (what, err)):
            return
        res.ev("replacements")
        # layout
        want, a = [], old.address
        for n, s in expected:
            want.append((n, a, s))
            a += s
        full = [b[:3] for b in before[:pos]] + want + [b[:3] for b in before[pos + 1:]]
        if not res.expect([x[:3] for x in after] == full, "layout/" + tag,
                          lambda: "%s: %s instead of %s" % (what, short(after), short(full))):
            return
        res.expect([x[3] for x in after[:pos]] == [x[3] for x in before[:pos]]
                   and [x[3] for x in after[pos + len(want):]] == [x[3] for x in before[pos + 1:]],
                   "neighbours/" + tag, lambda: "%s: other fields were replaced" % what)
        now = list(fs._fields)
        mine = now[pos:pos + len(want)]
        res.expect([f for f in mine if any(f is g for g in new)] == new, "fields/" + tag, "%s: not the given fields" % what)
        for f in mine:
            if not any(f is g for g in new):
                res.expect(isinstance(f, (PaddingBits, PaddingBytes)), "padding/" + tag, "%s: %r" % (what, f))
                res.ev("paddings")
        # values
        e = endian.get(fs.endian)
        if e and src.data is not None:
            for f, kind in zip(new, kinds):
                if f.absolute_address + f.size > 8 * len(src.data):
                    continue
                if kind == "set":
                    w = [model.bits(src.data, g.absolute_address, g.size, e) for g in f]
                    g = [g.value for g in f]
                else:
                    w, g = new_value(f, kind, src.data, e), f.value
                    if kind == "bytes" and f.absolute_address % 8:
                        continue
                    if kind == "bytes" and isinstance(f, RawBytes) and type(f) is RawBytes:
                        # the value of raw fields may be truncated
                        if w is not None and g != w:
                            w = w[:len(g) - 5] + b"(...)" if g.endswith(b"(...)") else w
                res.expect(g == w, "value/" + tag, lambda: "%s: %s = %r instead of %r" % (what, f.path, g, w))
        vals = [value_of(f) for f in now[:pos] + now[pos + len(want):]]
        old_vals = values[:pos] + values[pos + 1:]
        k = min(pos, 60)
        res.expect(vals[:k] == old_vals[:k], "values of neighbours/" + tag, what)
        # events
        who = [i for i, w in enumerate(watched) if w is fs] + ["global"]
        wanted = []
        for n, f in enumerate(mine):
            ev = ("field-replaced", (old, f)) if not n else ("field-inserted", (pos + n, f))
            wanted += [(w,) + ev for w in who]
        ok = len(log.events) == len(wanted) and all(
            g[0] == w[0] and g[1] == w[1] and len(g[2]) == len(w[2])
            and all(x is y or (isinstance(x, int) and x == y) for x, y in zip(g[2], w[2]))
            for g, w in zip(log.events, wanted))
        res.expect(ok, "events/" + tag, lambda: "%s: %s instead of %s" % (
            what, [(a, b, show(c)) for a, b, c in log.events], [(a, b, show(c)) for a, b, c in wanted]))
        res.ev("events", len(log.events))
        res.seen("replace", type(fs).__name__, type(old).__name__, len(want), mode, old.size % 8)
        # the replaced subtree leaves the tree
        if old.is_field_set:
            sets = [s for s in sets if s is not old and s not in kids]
            res.ev("sets replaced")
        for f in new:
            if f.is_field_set and not partial:
                list(f)
                sets.append(f)
                sizes[id(f)] = f.size
        if not partial and not invariants(res, fs, sizes[id(fs)], what, tag):
            return
        if not sets:
            break
    if partial:
        # the rest of the root is what it would have been
        try:
            rest = [(f.name, f.address, f.size) for f in root]
        except Exception as e:
            res.fail("rest:%s" % type(e).__name__, "after %s: %r" % (done, e))
            return
        n = len(fields)
        end = before[-1][1] + before[-1][2]
        got = [x[1:] for x in rest if x[1] >= end]
        exp = [x[1:] for x in ref_layout if x[1] >= end]
        # (a real parser may use the value of the replaced field)
        res.expect(got == exp or src.kind == "corpus", "rest", lambda: "after %s: %s instead of %s" % (done, got[:6], exp[:6]))
        if done:
            invariants(res, root, root.size, "after %s" % done[-3:], tag)
        res.ev("partial trees")
    else:
        res.ev("trees")


def below(f, top):
    while f is not None:
        if f is top:
            return True
        f = f.parent
    return False


def short(layout):
    return [x[:3] for x in layout[:8]]


def show(args):
    return [getattr(x, "name", x) for x in args]


def case(seed):
    kind, n = seed
    res = Result()
    rng = rng_for(PID, SEED, kind, n)
    if kind == "dict":
        for _ in range(20):
            dict_case(res, rng)
            handler_case(res, rng)
    elif kind == "synth":
        for _ in range(12):
            src = sources.synth_src(rng, fit=rng.random() < .8, seek=rng.random() < .2)
            tree_case(res, rng, src)
    elif kind == "corpus":
        src = sources.corpus_src(n, 40000)
        for _ in range(6):
            tree_case(res, rng, src)
    return res


def main():
    c = check.Check(PID, "a replacement is counted distinct by the class of the set and of the replaced field, the number "
                    "of new fields, the operation and the alignment; a dictionary run by its operations",
                    required=("dict operations", "dict refusals", "replacements", "refusals", "events", "paddings",
                              "trees", "partial trees", "sets replaced"))
    k = c.n(4, 60)
    cases = [("dict", i) for i in range(24 * k)] + [("synth", i) for i in range(160 * k)]
    cases += [("corpus", n) for n in corpus.names()]
    c.run(case, cases, timeout=240, deadline=c.deadline(150, 780), on_timeout=c.note_timeout)
    return c.finish()


if __name__ == "__main__":
    raise SystemExit(main())
