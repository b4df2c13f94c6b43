"""C17: guards and resources are always released.

Monitors: the interval timer, signal handlers and address-space limits read
before and after each guarded call (returning, failing, interrupted, nested,
exceeding its limit), and the table of open descriptors of the process around
every operation which opens a file (parsers, streams, outputs, search, strip,
editor, grep, metadata), with the garbage collector off."""
import contextlib
import gc
import io
import os
import resource
import shutil
import signal
import subprocess
import tempfile
import time

from vlib import check, corpus, tree
from vlib.check import Result, rng_for
from vlib.env import SEED
from hachoir.core import memory
from hachoir.core.memory import getMemoryLimit, limitedMemory, setMemoryLimit
from hachoir.core.timeout import Timeout, fixTimeout, limitedTime
from hachoir.editor import createEditor
from hachoir.field import writeIntoFile
from hachoir.grep import ConsoleGrep
from hachoir.metadata import extractMetadata
from hachoir.parser import HachoirParserList, Parser, createParser
from hachoir.stream import FileInputStream, FileOutputStream, InputStreamError
from hachoir.subfile.search import SearchSubfile
from hachoir.strip import stripEditor

PID = "C17"
SLACK = 20.0        # wall-clock slack of a loaded machine, in seconds


class Stopped(BaseException):
    pass


class Failed(Exception):
    pass


def busy(seconds):
    """Burn or sleep time, interruptible by a signal."""
    end = time.monotonic() + seconds
    while time.monotonic() < end:
        time.sleep(0.002)
    return "end of busy"


def spin(seconds):
    end = time.monotonic() + seconds
    n = 0
    while time.monotonic() < end:
        n += 1
    return n


def handler_a(signum, frame):
    raise Stopped("handler a")


def handler_b(signum, frame):
    pass


def timer_state():
    return signal.getsignal(signal.SIGALRM), signal.getitimer(signal.ITIMER_REAL)


def arm(rng):
    """Some earlier use of the alarm, far enough in the future."""
    handler = rng.choice((signal.SIG_DFL, signal.SIG_IGN, handler_a, handler_b))
    signal.signal(signal.SIGALRM, handler)
    r = rng.random()
    if r < .4:
        signal.setitimer(signal.ITIMER_REAL, 0)
        return handler, 0.0, 0.0, time.monotonic()
    delay = rng.uniform(60, 900)
    interval = rng.choice((0.0, 0.0, 7.5))
    signal.setitimer(signal.ITIMER_REAL, delay, interval)
    return handler, delay, interval, time.monotonic()


def check_timer(res, label, before):
    handler, delay, interval, t0 = before
    h, (left, inter) = timer_state()
    spent = time.monotonic() - t0
    res.expect(h is handler or h == handler, "handler", "%s: the SIGALRM handler is %r, was %r" % (label, h, handler))
    if delay:
        res.expect(left > 0 and abs(left - (delay - spent)) < .5, "timer",
                   "%s: an alarm due in %.2f s is due in %.2f s after %.2f s" % (label, delay, left, spent))
        res.expect(abs(inter - interval) < .01, "interval", "%s: timer interval %r, was %r" % (label, inter, interval))
    else:
        res.expect(left == 0, "timer left", "%s: an alarm is left, due in %.2f s" % (label, left))


def guard_case(res, rng):
    """Fast calls: whatever the way they end, the state is as before."""
    before = arm(rng)
    end = rng.choice(("return", "raise", "exit", "interrupt", "timeout raised", "nested", "nested raise", "generator"))
    limit = rng.choice((1, 2, 5, 30, 0.2, 1.5, 0, 3.0))
    depth = rng.choice((1, 1, 2, 3, 4))
    obj = object()
    err = Failed("x")
    old1 = signal.signal(signal.SIGUSR1, handler_a)

    def body(*args, **kw):
        if args != (1, "b") or kw != {"key": obj}:
            raise AssertionError("arguments %r %r" % (args, kw))
        h, (left, _) = timer_state()
        if not 0 < left <= fixTimeout(limit) + .01:
            raise AssertionError("no alarm in the guarded call (%r left)" % left)
        if end in ("raise", "nested raise"):
            raise err
        if end == "exit":
            raise SystemExit(3)
        if end == "interrupt":
            os.kill(os.getpid(), signal.SIGUSR1)
            time.sleep(1)
        if end == "timeout raised":
            raise Timeout("mine")
        if end == "generator":
            return (x for x in (1, 2))
        return obj

    fn, args, kw = body, (1, "b"), {"key": obj}
    for _ in range(depth - 1):
        # each guard around the previous one
        args = (rng.choice((2, 9, 30)), fn) + args
        fn = limitedTime
    label = "limitedTime(%r, ...) depth %d, %s" % (limit, depth, end)
    try:
        out = limitedTime(limit, fn, *args, **kw)
        got = "return"
    except (Failed, SystemExit, Stopped, Timeout) as e:
        got, out = type(e).__name__, e
    except BaseException as e:
        got, out = "unexpected", e
    check_timer(res, label, before)
    signal.setitimer(signal.ITIMER_REAL, 0)
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    signal.signal(signal.SIGUSR1, old1)
    exp = {"return": "return", "generator": "return", "raise": "Failed", "nested raise": "Failed", "exit": "SystemExit",
           "interrupt": "Stopped", "timeout raised": "Timeout", "nested": "return"}[end]
    res.expect(got == exp, "result", "%s: ends with %s %r, expected %s" % (label, got, out, exp))
    if end in ("return", "nested"):
        res.expect(out is obj, "value", "%s: returns %r" % (label, out))
    if end == "raise":
        res.expect(out is err, "error", "%s: raises another exception" % label)
    res.ev("guarded calls")
    res.ev("guarded calls under an earlier alarm", bool(before[1]))
    res.ev("nested guards", depth > 1)
    res.seen("time", limit, depth, end, before[0] if isinstance(before[0], int) else before[0].__name__, bool(before[1]))


def slow_case(res, rng):
    """Calls which exceed their limit."""
    before = arm(rng)
    kind = rng.choice(("simple", "simple", "outer", "inner", "inner then outer"))
    work = rng.choice((busy, spin))
    t0 = time.monotonic()
    label = "limitedTime, %s, %s" % (kind, work.__name__)
    log = []
    limit = 1

    def inner_caught():
        try:
            limitedTime(1, work, 30)
        except Timeout:
            log.append(time.monotonic() - t0)
        left = signal.getitimer(signal.ITIMER_REAL)[0]
        log.append(left)
        if kind == "inner":
            return "done"
        return work(60)

    try:
        if kind == "simple":
            out = limitedTime(rng.choice((1, 0.5, 0)), work, 60)
        elif kind == "outer":
            out = limitedTime(1, limitedTime, 40, work, 60)
        else:
            limit = 2
            out = limitedTime(2 if kind != "inner" else 60, inner_caught)
        got = "return"
    except Timeout:
        got, out = "Timeout", None
    except BaseException as err:
        got, out = repr(err), None
    spent = time.monotonic() - t0
    check_timer(res, label, before)
    signal.setitimer(signal.ITIMER_REAL, 0)
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    exp = "return" if kind == "inner" else "Timeout"
    res.expect(got == exp, "stop", "%s: %s after %.1f s, expected %s" % (label, got, spent, exp))
    if exp == "Timeout":
        res.expect(limit - .05 <= spent < limit + SLACK, "when", "%s: stopped after %.2f s, limit %d s" % (label, spent, limit))
    if log:
        res.expect(len(log) == 2 and .95 <= log[0] < 1 + SLACK, "inner", "%s: %r" % (label, log))
        res.expect(len(log) == 2 and log[1] > 0, "outer armed", "%s: the outer guard has no alarm after the inner one" % label)
    res.ev("calls stopped", got == "Timeout")
    res.seen("slow", kind, work.__name__, bool(before[1]), isinstance(before[0], int) and before[0])


# ------------------------------------------------------------------ memory

def rlimit():
    return resource.getrlimit(resource.RLIMIT_AS)


MB = 1 << 20


def memory_child(rng, out):
    """Runs in a forked process; sends (ok, key, message) lines."""
    def expect(cond, key, msg):
        out.append((bool(cond), key, msg))
    hard = rng.choice((-1, -1, 6 << 30, 3 << 30))
    soft = rng.choice((-1, 2 << 30, 1 << 30)) if hard == -1 else rng.choice((hard, 2 << 30, 1 << 30))
    resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
    expect(getMemoryLimit() == soft, "getMemoryLimit", "getMemoryLimit() is %r, the limit is %r" % (getMemoryLimit(), soft))
    page = resource.getpagesize()
    with open("/proc/self/statm") as fp:
        size = int(fp.read().split()[0]) * page
    expect(abs(memory.getMemorySize() - size) < 64 * MB, "getMemorySize", "%r, really %r" % (memory.getMemorySize(), size))
    limit = rng.choice((40, 80, 200)) * MB
    end = rng.choice(("return", "raise", "big", "big nested", "big caught", "nested", "exit"))
    seen = []

    def grow(n):
        seen.append(rlimit()[0])
        return len(bytearray(n))

    def body(a, b=None):
        seen.append(rlimit())
        if (a, b) != (1, 2):
            raise AssertionError
        if end == "return":
            return grow(limit // 4)
        if end == "raise":
            raise Failed("x")
        if end == "exit":
            raise SystemExit(1)
        if end == "big":
            return grow(limit + 64 * MB)
        if end == "big nested":
            # a larger inner guard does not lift the outer one
            return limitedMemory(40 * limit, grow, limit + 64 * MB)
        if end == "big caught":
            try:
                limitedMemory(10 * MB, grow, 60 * MB)
            except MemoryError:
                seen.append("caught")
            seen.append(rlimit())
            return grow(limit // 8)
        return limitedMemory(limit // 2, grow, limit // 16)
    before = rlimit()
    label = "limitedMemory(%d MB), %s, limits %r" % (limit // MB, end, before)
    try:
        v = limitedMemory(limit, body, 1, b=2)
        got = "return"
    except MemoryError:
        got = "MemoryError"
    except (Failed, SystemExit) as err:
        got = type(err).__name__
    except BaseException as err:
        got = repr(err)
    exp = {"return": "return", "raise": "Failed", "exit": "SystemExit", "big": "MemoryError", "big nested": "MemoryError",
           "big caught": "return", "nested": "return"}[end]
    after = rlimit()
    expect(got == exp, "memory result", "%s: ends with %s, expected %s" % (label, got, exp))
    if got == "return" == exp:
        n = {"return": limit // 4, "nested": limit // 16, "big caught": limit // 8}[end]
        expect(v == n, "memory value", "%s: returns %r" % (label, v))
    expect(after == before, "memory restored", "%s: limits are %r afterwards" % (label, after))
    inside = seen[0][0]
    expect(0 < inside <= size + limit + 96 * MB and (soft == -1 or inside <= soft), "memory limit",
           "%s: the limit inside is %r" % (label, inside))
    if end == "big caught":
        expect(seen[2] == "caught" and seen[3] == seen[0], "memory nested", "%s: %r" % (label, seen))
    # a limit which is already lower stays
    low = size + 30 * MB
    resource.setrlimit(resource.RLIMIT_AS, (low, hard))
    try:
        limitedMemory(900 * MB, lambda: expect(rlimit()[0] <= low, "memory raised",
                                               "a limit of %d was raised to %r" % (low, rlimit())))
    except MemoryError:
        pass
    expect(rlimit() == (low, hard), "memory restored low", "limits %r, were %r" % (rlimit(), (low, hard)))
    ok = setMemoryLimit(None)
    expect(ok and rlimit() == (hard, hard), "no limit", "setMemoryLimit(None): %r, limits %r, hard limit %r" % (
        ok, rlimit(), hard))
    out.append((True, "kind", "%s %s" % (end, got)))


def memory_case(res, rng):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            out = []
            try:
                resource.setrlimit(resource.RLIMIT_AS, (-1, -1))
                memory_child(rng, out)
            except BaseException as err:
                out.append((False, "memory child", "the check of the memory guard fails: %r" % (err,)))
            try:
                resource.setrlimit(resource.RLIMIT_AS, (resource.getrlimit(resource.RLIMIT_AS)[1],) * 2)
            except Exception:
                pass
            os.write(w, repr(out).encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fp:
        data = fp.read()
    os.waitpid(pid, 0)
    if not data:
        res.fail("memory child", "the process of the memory guard died")
        return
    for ok, key, msg in eval(data.decode()):
        res.expect(ok, key, msg)
        if key == "kind":
            res.ev("memory guards")
            res.ev("memory guards which stopped the call", "MemoryError" in msg)
            res.seen("memory", msg)


# -------------------------------------------------------------- descriptors

def fds():
    out = {}
    for fd in os.listdir("/proc/self/fd"):
        try:
            out[fd] = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            pass
    return {k: v for k, v in out.items() if not v.startswith("/proc/")}


class Evil(Parser):
    """A parser which is interrupted when it looks at the content."""
    PARSER_TAGS = {"id": "evil", "min_size": 8, "description": "evil"}
    endian = "ABCD"
    error = Stopped

    def __init__(self, stream, **args):
        stream.readBytes(0, 1)
        raise self.error("interrupted")


def make(rng, tmp):
    r = rng.random()
    names = corpus.names()
    if r < .1:
        data, name, kind = b"", rng.choice(names), "empty"
    elif r < .4:
        name = rng.choice(names)
        data, kind = corpus.load(name)[:100000], "corpus"
    else:
        c = tree.hostile_case(rng, forced=0)
        data, name, kind = c["data"], c["name"], "hostile"
    fn = os.path.join(tmp, os.path.basename(name))
    with open(fn, "wb") as fp:
        fp.write(data)
    return fn, data, kind


def some_reads(rng, parser):
    n = rng.choice((0, 3, 200, 3000))
    for f in parser:
        n -= 1
        if n < 0:
            break
        if rng.random() < .2:
            f.value
            f.display
            f.description


def op_parse(rng, fn, data, res):
    p = createParser(fn)
    if p is None:
        return "no parser"
    s = p.stream
    how = rng.choice(("with", "close", "with error", "stream"))
    if how == "with":
        with p:
            some_reads(rng, p)
    elif how == "close":
        some_reads(rng, p)
        p.close()
    elif how == "stream":
        some_reads(rng, p)
        with s:
            pass
    else:
        try:
            with p:
                some_reads(rng, p)
                raise Failed("in the block")
        except Failed:
            pass
    for what in (lambda: s.readBytes(0, 1), lambda: s.readBits(0, 3, p.endian), lambda: s.searchBytes(data[-2:], 0)):
        try:
            v = what()
            res.fail("read after close", "%s: after %s the parser still reads %r" % (os.path.basename(fn), how, v))
        except Exception:
            pass
        res.evals += 1
    return "parse " + how, p, s


def op_sub(rng, fn, data, res):
    off = rng.choice((0, 1, 5, len(data) // 2))
    size = rng.choice((None, 1, 7, len(data)))
    try:
        s = FileInputStream(fn, offset=off, size=size)
    except (InputStreamError, ValueError) as err:
        return "sub refused", err
    with s:
        try:
            s.readBytes(0, 1)
        except InputStreamError:
            pass
    try:
        v = s.readBytes(0, 1)
        res.fail("read after close sub", "a sub-range of a closed file still reads %r" % v)
    except Exception:
        pass
    res.evals += 1
    return "sub", s


def op_object(rng, fn, data, res):
    fp = open(fn, "rb")
    try:
        p = createParser(fp)
    except InputStreamError as err:
        # the caller's file stays his
        fp.close()
        return "object refused", err
    if p is not None:
        with p:
            some_reads(rng, p)
    res.expect(fp.closed, "object closed", "%s: the file object given to the parser is still open" % os.path.basename(fn))
    fp.close()
    return "object", p


def op_pipe(rng, fn, data, res):
    proc = subprocess.Popen(["cat", fn], stdout=subprocess.PIPE)
    try:
        p = createParser(proc.stdout)
        if p is not None:
            with p:
                some_reads(rng, p)
        res.expect(proc.stdout.closed, "pipe closed", "%s: the pipe is still open" % os.path.basename(fn))
    except InputStreamError as err:
        return "pipe refused", err
    except Exception as err:
        # An error of the parser: autofix needs the size of the stream
        proc.stdout.close()
        return "pipe failed", err
    finally:
        proc.stdout.close()
        proc.wait()
    return "pipe", p


def op_interrupt(rng, fn, data, res):
    err = rng.choice((Stopped, KeyboardInterrupt, SystemExit))
    Evil.error = err
    try:
        createParser(fn, tags=[("class", Evil)])
        res.ev("interrupted parsers: not reached")
        return "not interrupted"
    except err as e:
        res.ev("interrupted parsers")
        return "interrupted", e
    except InputStreamError as e:
        return "refused", e


def op_missing(rng, fn, data, res):
    out = []
    for bad in (fn + ".nosuch", os.path.dirname(fn)):
        try:
            createParser(bad)
            res.fail("missing", "createParser(%r) returns" % bad)
        except InputStreamError as err:
            out.append(err)
        res.evals += 1
    return "missing", out


def op_output(rng, fn, data, res):
    out = fn + ".out"
    how = rng.choice(("with", "close", "error"))
    try:
        o = FileOutputStream(out)
        if how == "close":
            o.writeBytes(data[:10])
            o.close()
        else:
            with o:
                o.writeBytes(data[:10])
                if how == "error":
                    raise Failed
    except Failed:
        pass
    try:
        o.writeBytes(b"xx")
        o._output.flush()
        res.fail("write after close", "a closed output still writes")
    except ValueError:
        pass
    with open(out, "rb") as fp:
        res.expect(fp.read() == data[:10], "flushed", "a closed output lacks data")
    try:
        FileOutputStream(os.path.join(fn, "nosuch"))
    except OSError:
        pass
    return "output " + how, o


def quiet(fn, *args):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return fn(*args)


def op_subfile(rng, fn, data, res):
    try:
        stream = FileInputStream(fn)
    except InputStreamError as err:
        return "refused", err
    before = rlimit()
    s = SearchSubfile(stream, rng.choice((0, 3)) if len(data) > 3 else 0, None)
    s.verbose = False
    s.loadParsers()
    if rng.random() < .7:
        s.setOutput(fn + ".dir")
    quiet(s.main)
    res.expect(rlimit() == before, "subfile limits", "limits %r after a search, %r before" % (rlimit(), before))
    n = len(os.listdir(fn + ".dir")) if os.path.isdir(fn + ".dir") else 0
    res.ev("files extracted", n)
    return "subfile", s


def op_grep(rng, fn, data, res):
    g = ConsoleGrep()
    try:
        quiet(g.searchFile, fn, "a", False)
    except SystemExit:
        pass
    return "grep", g


def op_metadata(rng, fn, data, res):
    try:
        p = createParser(fn)
    except InputStreamError as err:
        return "refused", err
    if p is None:
        return "no parser"
    with p:
        m = extractMetadata(p)
    return "metadata", m, p


def unwritable(rng, editor, fn):
    """Save an edited tree which cannot be written completely."""
    kind = rng.choice((Failed, KeyboardInterrupt, OSError))

    def writer(output):
        output.writeBytes(b"begin")
        raise kind("cannot write")
    editor.writeInto = writer
    try:
        writeIntoFile(editor, fn)
    except (Failed, KeyboardInterrupt, OSError) as err:
        return err
    finally:
        del editor.writeInto


def op_edit(rng, fn, data, res):
    try:
        p = createParser(fn)
    except InputStreamError as err:
        return "refused", err
    if p is None:
        return "no parser"
    e = err = None
    with p:
        if len(data) < 20000:
            e = createEditor(p)
            how = rng.choice(("output", "file", "failed", "no file"))
            if how == "output":
                with FileOutputStream(fn + ".copy") as o:
                    e.writeInto(o)
            elif how == "file":
                writeIntoFile(e, fn + ".copy")
                with open(fn + ".copy", "rb") as fp:
                    res.expect(len(fp.read()) == e.size // 8, "written", "writeIntoFile() returns before the file is written")
            else:
                # The error and its frames are kept by the caller
                err = unwritable(rng, e, fn + ".copy" if how == "failed" else os.path.join(fn, "nosuch"))
                res.expect(err is not None, "unwritable", "writeIntoFile() hides an error")
    if os.path.exists(fn + ".copy"):
        os.unlink(fn + ".copy")
    return "edit", e, p, err


def op_strip(rng, fn, data, res):
    try:
        p = createParser(fn)
    except InputStreamError as err:
        return "refused", err
    if p is None:
        return "no parser"
    kind = type(p).__name__
    if kind not in ("PngFile", "JpegFile", "RiffFile", "MpegAudioFile", "AuFile"):
        p.close()
        return "no stripper"
    with p:
        try:
            quiet(stripEditor, createEditor(p), fn + ".new", 0xff, False)
        except Exception:
            # a failing strip (C09) must not leak either
            res.ev("strip failed")
    return "strip", p


def op_metamain(rng, fn, data, res):
    from hachoir.metadata import main as mm

    class V:
        force_parser = None
        mime = type = raw = False
        quality = .5
    v = V()
    setattr(v, rng.choice(("mime", "type", "x")), True)
    quiet(mm.processFile, v, fn)
    return "processFile"


OPS = (op_parse, op_parse, op_sub, op_object, op_pipe, op_interrupt, op_missing, op_output, op_subfile, op_grep,
       op_metadata, op_edit, op_strip, op_metamain)


def fd_case(res, rng):
    tmp = tempfile.mkdtemp(prefix="c17-")
    gc.collect()
    gc.disable()
    try:
        for i in range(6):
            op = rng.choice(OPS)
            fn, data, kind = make(rng, tmp)
            before = fds()
            try:
                kept = op(rng, fn, data, res)   # objects stay referenced
            except InputStreamError as err:
                kept = ("refused", err)
            except Exception as err:
                res.fail("op:%s:%s:%s" % (op.__name__, type(err).__name__, tree.where(err)),
                         "%s on %s (%s) raises %r" % (op.__name__, os.path.basename(fn), kind, err))
                continue
            after = fds()
            left = {k: v for k, v in after.items() if before.get(k) != v}
            res.expect(not left, "leak:%s" % op.__name__, "%s on %s (%s): left open: %s" % (
                op.__name__, os.path.basename(fn), kind, sorted(left.values())))
            res.expect(set(before) <= set(after), "closed:%s" % op.__name__,
                       "%s on %s (%s): closed a descriptor of the caller" % (op.__name__, os.path.basename(fn), kind))
            res.ev("operations")
            res.ev(op.__name__)
            res.seen("fd", op.__name__, kind, kept[0] if isinstance(kept, tuple) else kept, os.path.basename(fn))
            del kept
    finally:
        gc.enable()
        shutil.rmtree(tmp, ignore_errors=True)


def many_case(res, rng):
    """Repeated use under a small limit of descriptors."""
    tmp = tempfile.mkdtemp(prefix="c17-")
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    gc.disable()
    try:
        fn = os.path.join(tmp, "a.png")
        with open(fn, "wb") as fp:
            fp.write(corpus.load("logo-kubuntu.png"))
        empty = os.path.join(tmp, "empty")
        open(empty, "wb").close()
        noise = os.path.join(tmp, "noise")
        with open(noise, "wb") as fp:
            fp.write(rng.randbytes(100))
        n = len(fds()) + 12
        resource.setrlimit(resource.RLIMIT_NOFILE, (n, hard))
        keep = []
        try:
            for i in range(40):
                p = createParser(fn)
                with p:
                    len(p)
                keep.append(p)
                keep.append(createParser(noise))
                try:
                    createParser(empty)
                except InputStreamError as err:
                    keep.append(err)
                with FileOutputStream(fn + ".out") as o:
                    o.writeBytes(b"x")
                with FileInputStream(fn, offset=8, size=4) as s:
                    s.readBytes(0, 4)
                keep += [o, s]
            err = None
        except OSError as e:
            err = e
        except InputStreamError as e:
            err = e
        finally:
            resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))
        res.expect(err is None, "exhausted", "descriptors are exhausted after %d uses: %r" % (len(keep), err))
        res.ev("repeated uses", len(keep))
    finally:
        gc.enable()
        shutil.rmtree(tmp, ignore_errors=True)


def case(arg):
    kind, n = arg
    rng = rng_for(PID, SEED, kind, n)
    res = Result()
    if kind == "guard":
        for x in (0, 1, 7, .1, .99, 1.0, 1.01, 2.5, 1e3, rng.uniform(0, 99)):
            v = fixTimeout(x)
            res.expect(type(v) is int and v >= 1 and v >= x and (v < x + 1 or v == 1), "fixTimeout", "fixTimeout(%r) = %r" % (x, v))
        for _ in range(30):
            guard_case(res, rng)
    elif kind == "slow":
        for _ in range(2):
            slow_case(res, rng)
    elif kind == "memory":
        for _ in range(3):
            memory_case(res, rng)
    elif kind == "many":
        many_case(res, rng)
    else:
        fd_case(res, rng)
    return res


def main():
    c = check.Check(PID, "one guarded call or one file operation: (kind, limits, way of ending, input)",
                    required=("guarded calls", "guarded calls under an earlier alarm", "nested guards", "calls stopped",
                              "memory guards", "memory guards which stopped the call", "operations", "interrupted parsers",
                              "files extracted", "repeated uses"))
    c.assumptions = ["a guarded call does not itself catch the error which reports the limit",
                     "a stopped call ends at most %d s after its limit (loaded machine)" % SLACK]
    HachoirParserList.getInstance()
    k = c.n(1, 20)
    cases = []
    for n in range(40 * k):
        cases += [("fd", 3 * n + i) for i in range(3)] + [("guard", n), ("memory", n)]
        if n % 2 == 0:
            cases += [("slow", n)]
        if n % 8 == 0:
            cases += [("many", n)]
    c.run(case, cases, timeout=240, deadline=c.deadline(60, 900), mem=0, on_timeout=c.note_timeout)
    return c.finish()


if __name__ == "__main__":
    raise SystemExit(main())
