"""Trees to observe: synthetic programs, corpus files, hostile data."""
from vlib import corpus, synth, tree
from hachoir.field import MissingField
from hachoir.stream import StringInputStream


class Src:
    """A tree which can be opened any number of times."""

    def __init__(self, kind, data, opener, label):
        self.kind = kind
        self.data = data
        self.open = opener
        self.label = label


def synth_src(rng, fit=None, seek=True):
    if fit is None:
        fit = rng.random() < .4
    data, spec = synth.generate(rng, fit, seek=seek)
    cls = synth.SynthParser if rng.random() < .8 else synth.RawParser

    def opener():
        return cls(StringInputStream(data), spec)
    s = Src("fit" if fit else "wild", data, opener, cls.__name__)
    s.spec = spec
    return s


def corpus_src(name, cap=None):
    data = corpus.load(name)
    if cap:
        data = data[:cap]

    def opener():
        return tree.guess(data, name)
    return Src("corpus", data, opener, name)


def hostile_src(rng, **kw):
    c = tree.hostile_case(rng, **kw)

    def opener():
        return tree.open_case(c)
    s = Src("hostile", c["data"], opener, "%s %s %s" % (c["name"], c["force"], c["desc"]))
    s.force = c["force"]
    return s


def touch(rng, root, steps=12):
    """Random first accesses, so that sets are met in all kinds of states.
    Returns the kinds of accesses done."""
    done = []
    sets = [root]
    for _ in range(steps):
        fs = rng.choice(sets)
        r = rng.randrange(9)
        new = None
        if r == 0:
            fs.readMoreFields(rng.randint(1, 5))
            k = "more"
        elif r == 1:
            fs.readFirstFields(rng.randint(1, 9))
            k = "first"
        elif r == 2:
            len(fs)
            k = "len"
        elif r == 3:
            fs.size
            k = "size"
        elif r == 4:
            try:
                new = fs.getField(rng.randrange(12), const=False)
            except MissingField:
                pass
            k = "index"
        elif r == 5:
            name = rng.choice(("f3", "a[0]", "a[1]", "raw[0]", "padding[0]", "dup", "nosuch", "header", "data"))
            try:
                new = fs[name]
            except MissingField:
                pass
            k = "name"
        elif r == 6:
            fs.getFieldByAddress(rng.randrange(400), feed=rng.random() < .7)
            k = "address"
        elif r == 7:
            n = rng.randint(1, 20)
            for f in fs:
                new = f
                n -= 1
                if not n:
                    break
            k = "iter"
        else:
            a = fs.array(rng.choice(("a", "b", "raw", "item", "chunk", "dup")))
            if rng.random() < .5:
                len(a)
            else:
                list(a)
            k = "array"
        if new is not None and new.is_field_set and not new.size == 0:
            sets.append(new)
        done.append(k)
    return done


def all_sets(root, rng, cap=400):
    """(field set, children) of the whole tree; when it is big, a random
    selection of sets."""
    stack = [root]
    n = 0
    while stack:
        fs = stack.pop()
        ch = list(fs)
        yield fs, ch
        n += 1
        subs = [f for f in ch if f.is_field_set]
        if n + len(stack) + len(subs) > cap and len(subs) > 12:
            subs = subs[:4] + rng.sample(subs[4:], 6) + subs[-2:]
        stack.extend(reversed(subs))
        if n > 3 * cap:
            return
