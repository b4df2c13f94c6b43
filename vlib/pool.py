"""Forked worker pool with one wall-clock watchdog per case.

A case which exceeds its watchdog or whose worker dies is reported with
status "timeout" or "crash"; that is never a verdict by itself."""
import os
import pickle
import resource
import signal
import struct
import time
import traceback
from multiprocessing.connection import Pipe, wait

NCPU = max(1, min(8, len(os.sched_getaffinity(0))))


def _worker(conn, fn, mem):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    if mem:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    while True:
        try:
            case = conn.recv()
        except EOFError:
            break
        if case is None:
            break
        try:
            res = ("ok", fn(case))
        except BaseException:
            res = ("error", traceback.format_exc())
        conn.send(res)
    conn.close()
    os._exit(0)


CPU_AT_KILL = {}    # repr(case) -> CPU seconds used by a case which timed out


def _cpu(pid):
    try:
        with open("/proc/%d/stat" % pid) as fp:
            f = fp.read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, ValueError, IndexError):
        return 0.0


class _W:
    pass


def _spawn(fn, mem, live):
    parent, child = Pipe()
    pid = os.fork()
    if pid == 0:
        try:
            parent.close()
            for w in live:
                w.conn.close()
            _worker(child, fn, mem)
        finally:
            os._exit(1)
    child.close()
    w = _W()
    w.conn = parent
    w.pid = pid
    w.case = None
    w.t0 = None
    return w


def _reap(w, kill=True):
    try:
        w.conn.close()
    except OSError:
        pass
    if kill:
        try:
            os.kill(w.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    try:
        os.waitpid(w.pid, 0)
    except ChildProcessError:
        pass


def run_cases(fn, cases, workers=NCPU, timeout=60.0, deadline=None,
              mem=2 << 30):
    """Yield (case, status, result). Stops handing out new cases after
    `deadline` (time.monotonic() value)."""
    cases = iter(cases)
    exhausted = False
    live = []

    def feed(w):
        nonlocal exhausted
        if exhausted or (deadline and time.monotonic() > deadline):
            exhausted = True
            return False
        try:
            case = next(cases)
        except StopIteration:
            exhausted = True
            return False
        w.case = case
        w.t0 = time.monotonic()
        w.cpu0 = _cpu(w.pid)
        w.conn.send(case)
        return True

    try:
        for _ in range(workers):
            w = _spawn(fn, mem, live)
            if not feed(w):
                _reap(w)
                break
            live.append(w)
        while live:
            ready = wait([w.conn for w in live], timeout=1.0)
            now = time.monotonic()
            for w in list(live):
                if w.conn in ready:
                    case = w.case
                    try:
                        status, res = w.conn.recv()
                    except (EOFError, ConnectionResetError, pickle.UnpicklingError,
                            struct.error, OSError):
                        status, res = "crash", None
                    if status == "crash":
                        live.remove(w)
                        _reap(w)
                        yield case, status, res
                        w = _spawn(fn, mem, live)
                        if feed(w):
                            live.append(w)
                        else:
                            _reap(w)
                        continue
                    if not feed(w):
                        live.remove(w)
                        _reap(w)
                    yield case, status, res
                elif now - w.t0 > timeout:
                    case = w.case
                    CPU_AT_KILL[repr(case)] = _cpu(w.pid) - w.cpu0
                    live.remove(w)
                    _reap(w)
                    yield case, "timeout", None
                    w = _spawn(fn, mem, live)
                    if feed(w):
                        live.append(w)
                    else:
                        _reap(w)
    finally:
        for w in live:
            _reap(w)
