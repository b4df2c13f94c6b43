"""C04: any input is parsed safely.

Hostile inputs (mutated and structure-aware corrupted samples, truncations,
generated files, random data, every parser forced on nasty data) are parsed
and read completely. Oracles: no exception leaves a public call, texts are
texts, and the amount of work is bounded: a case which uses too much CPU time
is run again under a logical step counter (sys.monitoring), whose budget is
proportional to the input."""
import gc
import resource
import signal
import sys

from vlib import check, corpus, gen, pool, sources, tree
from vlib.check import Result, rng_for
from vlib.env import SEED
from hachoir.core.endian import LITTLE_ENDIAN
from hachoir.field import Bits
from hachoir.parser.parser import HachoirParser

PID = "C04"
CPU = 15.0
STEPS = 60_000_000
PER_BYTE = 2000
MEM = 1200 << 10       # kB of peak RSS


class CpuLimit(BaseException):
    pass


class StepLimit(BaseException):
    pass


def on_cpu(signum, frame):
    raise CpuLimit


def attributes(res, f, label, sub):
    """Every public attribute of a field can be read and is of its type."""
    for name, types in (("display", str), ("raw_display", str), ("description", str)):
        try:
            v = getattr(f, name)
        except Exception as err:
            res.fail("%s:%s:%s" % (name, type(err).__name__, tree.where(err)),
                     "%s: %s of %s (%s) raises %r" % (label, name, f.path, type(f).__name__, err))
            continue
        if not isinstance(v, str):
            if v is None and name == "display" and f.value is None:
                res.ev("no display")
                continue
            res.fail("%s:type:%s" % (name, type(v).__name__),
                     "%s: %s of %s (%s in %s) is %r" % (label, name, f.path, type(f).__name__,
                                                      type(f._parent).__name__, v))
    for name in ("value", "size", "address", "absolute_address", "index", "path", "name"):
        try:
            getattr(f, name)
        except Exception as err:
            res.fail("%s:%s:%s" % (name, type(err).__name__, tree.where(err)),
                     "%s: %s of %s (%s) raises %r" % (label, name, f.path, type(f).__name__, err))
    try:
        f.getFieldType()
        f.hasValue()
    except Exception as err:
        res.fail("getFieldType:%s:%s" % (type(err).__name__, tree.where(err)),
                 "%s: type of %s (%s) raises %r" % (label, f.path, type(f).__name__, err))
    res.evals += 10


def read_all(res, rng, root, label, forced):
    for name in ("description", "mime_type", "content_size", "filename_suffix", "display", "raw_display", "value"):
        try:
            v = getattr(root, name)
        except Exception as err:
            if isinstance(err, AttributeError) and not isinstance(root, HachoirParser):
                continue
            res.fail("root %s:%s:%s" % (name, type(err).__name__, tree.where(err)),
                     "%s: %s of the root raises %r" % (label, name, err))
            continue
        ok = {"description": isinstance(v, str), "mime_type": isinstance(v, str),
              "content_size": v is None or isinstance(v, int),
              "filename_suffix": v is None or isinstance(v, str)}.get(name, True)
        res.evals += 1
        if not ok:
            res.fail("root %s:type:%s" % (name, type(v).__name__),
                     "%s: %s of %s is %r" % (label, name, type(root).__name__, v))
    n = read = 0
    stack = [root]
    kinds = set()
    while stack:
        fs = stack.pop()
        subs = []
        try:
            for f in fs:
                n += 1
                if f.is_field_set:
                    subs.append(f)
                kinds.add(type(f).__name__)
                if n < 1500 or (read < 3000 and rng.random() < .04):
                    read += 1
                    attributes(res, f, label, f.is_field_set)
            len(fs)
            fs.size
        except Exception as err:
            res.fail("structure:%s:%s" % (type(err).__name__, tree.where(err)),
                     "%s: reading %s (%s) raises %r" % (label, fs.path, type(fs).__name__, err))
        stack.extend(reversed(subs))
        if n > 120000:
            res.ev("trees cut at 120000 fields")
            break
    res.ev("fields", n)
    res.ev("fields with attributes read", read)
    res.seen(type(root).__name__, sorted(kinds), n if n < 50 else n // 50)


def run(res, rng, opener, label, forced):
    try:
        root = opener()
    except MemoryError:
        raise
    except Exception as err:
        if forced:
            res.ev("forced parser rejected the data")
            return
        res.fail("guess:%s:%s" % (type(err).__name__, tree.where(err)), "%s: guessing raises %r" % (label, err))
        return
    if root is None:
        res.ev("no parser")
        res.evals += 1
        return
    res.ev("parsed")
    read_all(res, rng, root, label, forced)


def counted(fn, budget):
    """Run fn under a step counter: True when it ends within the budget."""
    mon = sys.monitoring
    tool = mon.DEBUGGER_ID
    left = budget

    def tick(*args):
        nonlocal left
        left -= 1
        if left < 0:
            raise StepLimit
    mon.use_tool_id(tool, "steps")
    E = mon.events
    try:
        for e in (E.JUMP, E.PY_START, E.PY_RESUME):
            mon.register_callback(tool, e, tick)
        mon.set_events(tool, E.JUMP | E.PY_START | E.PY_RESUME)
        try:
            fn()
            return True, budget - left
        except StepLimit:
            return False, budget
    finally:
        mon.set_events(tool, 0)
        mon.free_tool_id(tool)


def exhausted(res, label, size):
    gc.collect()
    res.hang = True
    res.fail("memory:" + label.split(" ")[0], "%s: %d bytes exhaust the memory (4 GB)" % (label, size))


def guarded(res, key, opener, label, size, forced):
    """One input: CPU-limited reading, then step-limited when it is slow."""
    if getattr(res, "hang", False):
        return              # the case has its verdict
    signal.signal(signal.SIGVTALRM, on_cpu)
    sub = Result()
    try:
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU, 1.0)
        try:
            run(sub, rng_for(key), opener, label, forced)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        slow = False
    except CpuLimit:
        slow = True
    except MemoryError:
        sub = None
        exhausted(res, label, size)
        return
    if slow:
        res.ev("slow inputs")
        sub = Result()
        try:
            ok, steps = counted(lambda: run(sub, rng_for(key), opener, label, forced), STEPS + PER_BYTE * size)
        except MemoryError:
            sub = None
            exhausted(res, label, size)
            return
        if not ok:
            res.fail("work:%s" % label.split(" ")[-1].split(":")[0] if forced else "work:" + label.split(" ")[0],
                     "%s: more than %d steps for %d bytes" % (label, steps, size))
            res.hang = True
            sub.viol = []
        else:
            res.ev("slow inputs within the step budget")
            if len(res.samples) < 2:
                res.samples.append("slow but bounded: %s: %d steps for %d bytes" % (label, steps, size))
    res.evals += sub.evals
    res.sigs += sub.sigs
    res.viol += sub.viol
    for k, v in sub.events.items():
        res.ev(k, v)
    res.ev("inputs")


NASTY = [b"\0", b"\xff", b"\0" * 64, b"\xff" * 64, b"\0" * 4096, b"\xff" * 4096, b"A" * 4096, b"\x01" * 2048,
         b"\x00\x01" * 1024, b"\x01\x00\x00\x00" * 600, bytes(range(256)) * 9, b"\x80" * 3000, b"\x20\x0a" * 900,
         b"\x7f" * 3001, b"\x00\x00\x00\x08" * 500, b"\x08\x00\x00\x00" * 500, b"0" * 3000,
         b"\x30\x80" * 1500, b"l" * 2500, b"\x10" * 2049]


def forced_open(pid, data):
    try:
        return tree.PARSERS[pid](tree.stream_of(data))
    except MemoryError:
        raise
    except Exception:
        return None


def numbers(p, limit=6000):
    """the numbers of a tree: (path, address, size, endian)"""
    out, stack, n = [], [p], 0
    while stack and n < limit:
        fs = stack.pop()
        sets = []
        for k, f in enumerate(fs):
            n += 1
            if f.is_field_set:
                sets.append(f)
            elif isinstance(f, Bits) and 0 < f.size <= 64:
                out.append((f.path, f.absolute_address, f.size, fs.endian))
            if n >= limit or k > 500:
                break
        stack.extend(reversed(sets))
    return out


def case(arg):
    kind, n = arg
    rng = rng_for(PID, SEED, kind, n)
    res = Result()
    if kind == "nasty":
        pid = tree.PARSER_IDS[n % len(tree.PARSER_IDS)]
        for i, data in enumerate(NASTY):
            guarded(res, (PID, SEED, arg, i), lambda: tree.PARSERS[pid](tree.stream_of(data)),
                    "nasty %d forced as %s" % (i, pid), len(data), True)
        # with the right magic, then nasty data
        tags = tree.PARSERS[pid].PARSER_TAGS
        for i, m in enumerate(tags.get("magic", ())[:4]):
            magic, off = m
            fill = rng.choice(NASTY[2:])
            data = (fill * 40)[:off // 8] + magic + fill
            guarded(res, (PID, SEED, arg, "m", i), lambda: tree.guess(data, "x." + (tags.get("file_ext") or ("x",))[0]),
                    "magic of %s" % pid, len(data), False)
    elif kind == "trunc":
        names = corpus.names()
        name = names[n % len(names)]
        data = corpus.load(name)
        cuts = {rng.randrange(1, min(len(data), 49152) + 1) for _ in range(5)}
        cuts |= {rng.randrange(1, min(len(data), 700) + 1) for _ in range(6)}
        for cut in sorted(cuts):
            d = data[:cut]
            guarded(res, (PID, SEED, arg, cut), lambda: tree.guess(d, name), "%s truncated at %d" % (name, cut), cut,
                    False)
    elif kind == "table":
        # every table of references of a sample as a random graph
        name = corpus.names()[n]
        data = corpus.load(name)[:400000]
        shapes = {}
        for t in tree.tables(name):
            shapes.setdefault(t[1:], []).append(t)
        for i, shape in enumerate(list(shapes)[:8]):
            for j in range(2):
                d, desc = tree.corrupt_table(rng, data, shapes[shape][:4], None)
                res.ev("table graphs")
                guarded(res, (PID, SEED, arg, i, j), lambda: tree.guess(d, name), "%s %s" % (name, desc), len(d), False)
    elif kind == "fields":
        # numbers of a generated file: zero, huge or next to the right value
        names = gen.names()
        g = gen.make(names[n % len(names)], rng)
        nums = numbers(tree.PARSERS[g.parser](tree.stream_of(g.data)))
        for i in range(8 if len(g.data) < 50000 else 3):
            if rng.random() < .15:
                data, desc = corpus.mutate(rng, g.data)
            elif rng.random() < .5:
                data, desc = tree.corrupt_fields(rng, g.data, [x[1:] for x in nums], 3)
            else:
                buf = bytearray(g.data)
                chosen = rng.sample(nums, min(len(nums), rng.choice((1, 1, 2, 2, 3, 4))))
                for path, addr, size, endian in chosen:
                    big = endian is not LITTLE_ENDIAN
                    old = tree.bits_at(g.data, addr, size, big) or 0
                    new = rng.choice((0, 0, 1, (1 << size) - 1, (1 << size - 1) - 1, 1 << size - 1, old + 1, old - 1,
                                      old * 2, rng.randrange(1 << size)))
                    tree.put_bits(buf, addr, size, new & ((1 << size) - 1), big)
                data, desc = bytes(buf), "+".join(x[0] for x in chosen)
            res.ev("damaged generated files")
            guarded(res, (PID, SEED, arg, i), lambda: forced_open(g.parser, data),
                    "%s #%d with %s" % (g.parser, n, desc), len(data), False)
    elif kind == "synth":
        for i in range(10):
            src = sources.synth_src(rng, fit=False)
            guarded(res, (PID, SEED, arg, i), src.open, "program %s" % src.label, len(src.data), False)
    else:
        for i in range(4):
            src = sources.hostile_src(rng)
            guarded(res, (PID, SEED, arg, i), src.open, "%s" % src.label, len(src.data), bool(src.force))
    rss = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
    if rss > MEM:
        res.fail("memory:%s:%d" % (kind, n), "case %r: peak memory is %d MB" % (arg, rss >> 10))
        res.ev("memory above limit")
    return res


def main():
    c = check.Check(PID, "one input: (parser, set of field types met, number of fields)",
                    required=("parsed", "no parser", "fields", "forced parser rejected the data", "table graphs", "damaged generated files"))
    c.assumptions = ["wall-clock time decides nothing: an input is a hang when it exceeds %d + %d/byte steps, or when "
                     "native code burns more than 150 s of CPU" % (STEPS, PER_BYTE)]

    def on_timeout(case, status):
        cpu = pool.CPU_AT_KILL.get(repr(case), 0)
        if status == "timeout" and cpu > 150:
            c.violation("native hang:%r" % (case,), "case %r burnt %.0f s of CPU" % (case, cpu), case=case)
        else:
            c.note_timeout(case, status)
    cases = [("nasty", n) for n in range(len(tree.PARSER_IDS))] + [("trunc", n) for n in range(len(corpus.names()))]
    cases += [("table", n) for n in range(len(corpus.names()))]
    more = [("synth" if n % 6 == 0 else "fields" if n % 6 == 3 else "hostile", n) for n in range(c.n(4000, 200000))]
    # spread the systematic cases among the random ones
    rng = rng_for(PID, "order", SEED)
    rng.shuffle(cases)
    c.run(case, cases + more, timeout=240, deadline=c.deadline(110, 700), on_timeout=on_timeout)
    return c.finish()


if __name__ == "__main__":
    raise SystemExit(main())
