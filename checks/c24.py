"""C24: the interactive browser shows the tree and saves exactly the selected field.

hachoir-urwid runs with a scripted screen (and, in some cases, on a real
pseudo-terminal).  Everything is judged on what is drawn: the rows of each
screen are compared with the lines which another instance of the parser gives
for the fields, in the order of the tree, under the switches pressed so far; the
place of the highlighted row with what the keys are documented to do; the saved
files with the bytes of the file.  Each session has its own process.

Kinds of sessions:
  keys     random keys on a high screen, where every visible line is judged
  small    random keys on a small screen (the view scrolls, is cut and scrolled)
  walk     a whole small tree is unfolded, every line is visited and judged
  save     fields are saved with ^E and ^X, names completed with tab
  tabs     embedded files are opened in tabs
  damaged  damaged files: no key ends the program
  options  options of the command line
  lazy     fields which appear in place of others while they are browsed
  pty      a real terminal"""
import contextlib
import io
import os
import pickle
import re
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import unicodedata

from vlib import check, corpus, env, gen, sources, tree
from vlib.check import Result, rng_for
from vlib.env import SEED
from vlib.formats import BY_ID, tmp_root

PID = "C24"
HELP = ["Application:", "Parser window:", "save field to a file", "collapse/expand", "move to parent field", "exit"]


class Stop(Exception):
    pass


# ------------------------------------------------------------ expected lines

FLAGS = {"a": "absolute", "b": "hexa", "h": "human", "s": "size", "t": "type", "v": "value", "d": "description"}


class Flags:
    def __init__(self, **kw):
        self.absolute = self.hexa = self.type = False
        self.human = self.size = self.value = self.description = True
        self.__dict__.update(kw)

    def toggle(self, key):
        name = FLAGS[key]
        setattr(self, name, not getattr(self, name))


def human_bytes(n):
    if n < 10000:
        return "%d bytes" % n
    for unit in ("KB", "MB", "GB", "TB"):
        n /= 1024
        if n < 1024 or unit == "TB":
            return "%.1f %s" % (n, unit)


def line_of(f, depth, unfolded, flags, charset):
    """the documented line of a field"""
    from hachoir.core.tools import humanBitSize, makePrintable
    mark = "- " if unfolded else "+ " if f.is_field_set else "  "
    text = " " * (3 * depth - 2) + mark if depth else ""
    name = f.name if depth else f.stream.source
    if f.size:
        address = f.absolute_address if flags.absolute else f.address
        text += ("%04x" if flags.hexa else "%d") % (address // 8)
        if address % 8 or f.size % 8:
            text += ".%d" % (address % 8)
        text += ") " + name
    else:
        text += "-> " + name
    if flags.value and f.hasValue():
        text += "= %s" % (f.display if flags.human else f.raw_display)
    if flags.description and f.description:
        text += ": " + (f.description if flags.human else makePrintable(f.description, "ASCII"))
    tail = []
    if flags.type:
        tail.append(f.getFieldType())
    if flags.size and (f.size or flags.type):
        if f.size % 8:
            tail.append(humanBitSize(f.size))
        elif flags.human:
            tail.append(human_bytes(f.size // 8))
        else:
            tail.append("%d bytes" % (f.size // 8))
    if tail:
        text += " (%s)" % ", ".join(tail)
    return makePrintable(text, charset, smart=flags.human)


class Model:
    """What one tab should show: another instance of the tree."""

    def __init__(self, root, preload, flags):
        self.root = root
        self.preload = preload
        self.flags = flags
        self.start = 0
        self.open = {()}
        self.least = {}         # number of fields which are at least shown
        self.focus = ()
        self.fields = {(): root}
        self.rows = []          # nodes of the last screen, None for "(...)"
        self._kids = {}
        self.was_unsized = root.stream._size is None

    def field(self, path):
        if path not in self.fields:
            self.fields[path] = self.kids(path[:-1])[path[-1]]
        return self.fields[path]

    def kids(self, path):
        if path not in self._kids:
            f = self.field(path)
            self._kids[path] = list(f) if f.is_field_set else []
        return self._kids[path]

    def nkids(self, path):
        return len(self.kids(path))

    def unfolded(self, path):
        return path in self.open and self.nkids(path) > 0

    def unsized(self, row, cols):
        """the size of a tree whose input has an unknown size is told when the end
        of the input has been seen: both lines are right"""
        root = self.root
        if root.stream._size is not None and not self.was_unsized:
            return False
        self.was_unsized = True
        name = root.stream.source
        return any(same_row(row[:len(t)], t, cols) for t in (x[self.start:] for x in ("-> " + name, "0) " + name, "0000) " + name)) if t)

    def text(self, path, charset):
        return line_of(self.field(path), len(path), self.unfolded(path), self.flags, charset)

    def after(self, path):
        """the next node when nothing below `path` is shown"""
        while path:
            up, i = path[:-1], path[-1] + 1
            if i < self.nkids(up):
                return up, i
            path = up
        return None

    def fold(self, path):
        self.open = {p for p in self.open if p[:len(path)] != path}

    def reveal(self, path):
        for i in range(len(path)):
            if path[:i] not in self.open:
                self.open.add(path[:i])
                self.least[path[:i]] = min(self.preload, path[i] + 1)

    def may_stop(self, path):
        """may the field be shown as (...) or not at all, as it isn't read yet?"""
        return bool(path) and path[-1] >= self.least.get(path[:-1], self.preload)

    def path_of(self, f):
        out = []
        while f.parent is not None:
            out.append(f.index)
            f = f.parent
        return tuple(reversed(out))


def drawn(text):
    """without the characters which have no width: terminals don't show them"""
    if not text.isascii():
        text = "".join(c for c in text if unicodedata.category(c) not in ("Cc", "Cf", "Mn", "Me", "Cn", "Zl", "Zp"))
    return text.rstrip()


def same_row(shown, text, cols):
    """is `shown` what a row of `cols` columns shows of `text`?"""
    text, shown = drawn(text), drawn(shown)
    return shown == text or (len(text) > cols // 2 and len(shown) > cols // 3 and text.startswith(shown))


def follow(m, first, rows, cols, charset, texts):
    """the nodes of the rows when the first one is `first`; None if it isn't possible"""
    out = []
    cur = first

    def text(p):
        if p not in texts:
            texts[p] = m.text(p, charset)[m.start:]
        return texts[p]
    for k, row in enumerate(rows):
        if cur is None:
            if row:
                return k, out
            out.append(None)
            continue
        if same_row(row, text(cur), cols) or (cur == () and m.unsized(row, cols)):
            out.append(cur)
            if m.unfolded(cur):
                cur = cur + (0,)
            else:
                nxt = m.after(cur)
                cur = nxt and nxt[0] + (nxt[1],)
            continue
        # the next field of a set which isn't read yet
        if m.may_stop(cur):
            more = ("   " * (len(cur) - 1) + (" +" if m.field(cur).is_field_set else "  ") + " (...)")[m.start:]
            if row == more.rstrip():
                out.append(("more", cur))
                nxt = m.after(cur[:-1])
                cur = nxt and nxt[0] + (nxt[1],)
                continue
            # the set isn't read further, without any mark
            nxt = m.after(cur[:-1])
            while nxt is not None:
                c = nxt[0] + (nxt[1],)
                if same_row(row, text(c), cols):
                    break
                nxt = m.after(nxt[0]) if m.may_stop(c) else None
            else:
                return k, out
            out.append(c)
            if m.unfolded(c):
                cur = c + (0,)
            else:
                nxt = m.after(c)
                cur = nxt and nxt[0] + (nxt[1],)
            continue
        return k, out
    return None, out


# ------------------------------------------------------------ the screen

class Screen:
    """scripted terminal"""

    def __init__(self, driver, rows, cols):
        self.driver = driver
        self.size = cols, rows
        self.canvas = None

    def register_palette(self, *a):
        pass

    def run_wrapper(self, fn, *a, **kw):
        return fn(*a, **kw)

    def get_cols_rows(self):
        return self.size

    def draw_screen(self, size, canvas):
        self.drawn_size = size
        self.canvas = canvas

    def get_input(self, *a):
        return self.driver.next(self)

    def lines(self):
        """[(text, attributes)]"""
        out = []
        for row in self.canvas.content():
            text = b"".join(seg[2] for seg in row)
            out.append((text.decode("utf-8", "replace").rstrip(), {seg[0] for seg in row if seg[0]}, row))
        return out


class Driver:
    def __init__(self, res, model, rows, cols, script):
        self.res = res
        self.tabs = [["root", model]]
        self.active = 0
        self.rows, self.cols = rows, cols
        self.script = script(self)
        self.n = 0
        self.last = None
        self.errors = 0
        self.where = None
        self.keys = []
        self.finished = False
        self.charset = None

    # -- reading the screen

    def look(self, screen):
        self.n += 1
        lines = screen.lines()
        if len(lines) != self.rows:
            raise Stop("%d rows drawn instead of %d" % (len(lines), self.rows))
        sep = [i for i, (_, a, _) in enumerate(lines) if "sep" in a or "input" in a]
        if not sep:
            raise Stop("no separator")
        self.sep = lines[sep[0]]
        self.body = lines[:sep[0]]
        self.log = [t for t, _, _ in lines[sep[0] + 1:]]
        self.focus_rows = [i for i, (_, a, _) in enumerate(self.body) if "focus" in a]
        self.asking = "input" in self.sep[1]

    def status(self):
        m = re.search(r"log: (\d+)/(\d+)/(\d+)", self.sep[0])
        return tuple(map(int, m.groups())) if m else None

    def check_sep(self):
        """names of the tabs, the active one, counters"""
        if self.cols < 100:
            return
        labels = "".join(" %d %s " % (i, t[0]) for i, t in enumerate(self.tabs))
        left = "".join(seg[2].decode("utf-8", "replace") for seg in self.sep[2])
        self.expect(left.startswith(labels), "tabs", "tabs %r instead of %r" % (left[:80], labels))
        on = "".join(seg[2].decode("utf-8", "replace") for seg in self.sep[2] if seg[0] == "focus")
        want = " %d %s " % (self.active, self.tabs[self.active][0])
        self.expect(on == want, "active tab", "active tab %r instead of %r" % (on, want))

    def expect(self, cond, key, msg):
        return self.res.expect(cond, "ui:" + key, "%s: after %s: %s" % (self.label, " ".join(self.keys[-12:]), msg))

    def bad(self, key, msg):
        self.expect(False, key, msg)
        raise Stop

    # -- judging a screen

    def check_tree(self, focus="exact"):
        """the rows of the tree; focus: the highlighted row must be model.focus
        (exact), or tells it (learn)"""
        name, m = self.tabs[self.active]
        if m is None:
            text = "\n".join(t for t, _, _ in self.body)
            if len(self.body) > 40:
                for h in HELP:
                    self.expect(h in text, "help", "%r isn't in the help" % h)
            return
        rows = [t for t, _, _ in self.body]
        if not self.expect(len(self.focus_rows) == 1, "one line is highlighted", "rows %s highlighted" % self.focus_rows[:5]):
            raise Stop
        at = self.focus_rows[0]
        texts = {}
        best = (-1, None)
        cands = [()] if not m.rows_from else [m.rows_from, ()]
        tried = set()
        found = None
        for c in list(cands) + [None]:
            if c is None:
                # any visible node which has the text of the first row
                more = []
                stack = [()]
                while stack and len(more) < 4000:
                    p = stack.pop()
                    more.append(p)
                    if p in m.open:
                        stack += [p + (i,) for i in reversed(range(min(m.nkids(p), 1500)))]
                skip = 0
                while skip < len(rows) and rows[skip].endswith("(...)"):
                    skip += 1
                group = [(p, skip) for p in more if same_row(rows[skip], texts.setdefault(p, m.text(p, self.charset)[m.start:]), self.cols)] if skip < len(rows) else []
            else:
                group = [(c, 0)]
            for p, skip in group:
                if (p, skip) in tried:
                    continue
                tried.add((p, skip))
                k, out = follow(m, p, rows[skip:], self.cols, self.charset, texts)
                if k is not None:
                    if k > best[0]:
                        best = (k, p, rows[skip + k], out[-1] if out else None)
                    continue
                out = [None] * skip + out
                if focus == "exact" and out[at] != m.focus:
                    best = (1000, out[at], rows[at], m.focus)
                    continue
                if focus == "learn" and (out[at] is None or out[at][:1] == ("more",)):
                    continue
                found = out
                break
            if found:
                break
        self.res.evals += sum(1 for r in rows if r)
        if not found:
            if best[0] == 1000:
                self.bad("focus", "the highlighted line is %r (%s) instead of %s" % (best[2][:100], self.show(m, best[1]), self.show(m, best[3])))
            last = best[3] if len(best) > 3 else None
            if best[0] < 0:
                self.bad("lines", "first line %r isn't a line of the tree" % rows[0][:140])
            want = None
            if last is not None and last[:1] != ("more",):
                nxt = last + (0,) if m.unfolded(last) else None
                if nxt is None:
                    a = m.after(last)
                    nxt = a and a[0] + (a[1],)
                want = "no line" if nxt is None else m.text(nxt, self.charset)[m.start:]
            elif last is None:
                want = m.text(best[1], self.charset)[m.start:]
            self.bad("lines", "line %r instead of %r" % (best[2][:200], want and want[:200]))
        m.rows = found
        m.rows_from = found[0] if found[0] and found[0][:1] != ("more",) else None
        if focus == "learn":
            m.focus = found[at]
        f = m.field(m.focus)
        self.res.ev("screens")
        self.res.ev("lines", sum(1 for x in found if x is not None))
        if any(x and x[:1] == ("more",) for x in found):
            self.res.ev("unread fields")
        self.res.seen(self.label, m.focus, tuple(sorted(m.flags.__dict__.items())), len([x for x in found if x]), m.start)
        return f

    def show(self, m, p):
        if p is None:
            return "no field"
        if p[:1] == ("more",):
            return "(...) %s" % (p[1],)
        return m.field(p).path


class Session(Driver):
    """The script is a generator: it yields lists of keys, and sees the screen
    which was drawn after them."""

    def next(self, screen):
        self.look(screen)
        try:
            keys = next(self.script)
        except StopIteration:
            self.finished = True
            return ["q"]
        self.keys += keys
        return keys

    @property
    def m(self):
        return self.tabs[self.active][1]


def press(s, key, focus=None):
    """one key whose effect on the tree is documented"""
    m = s.m
    learn = False
    if key in FLAGS:
        m.flags.toggle(key)
        s.res.ev("switch " + key)
    elif key == "right":
        m.start += 1
    elif key == "left":
        m.start = max(0, m.start - 1)
    elif key in ("down", "up"):
        rows = [r for r in m.rows if r is not None]
        here = rows.index(m.focus) if m.focus in rows else None
        if here is None:
            learn = True
        else:
            to = here + (1 if key == "down" else -1)
            if 0 <= to < len(rows):
                r = rows[to]
                m.focus = r[1] if r[:1] == ("more",) else r
            elif (to < 0 and rows[0] != ()) or (to >= 0 and len(rows) == len(s.body)):
                learn = True
            s.res.ev("moves")
    elif key == "home":
        if m.focus:
            m.focus = m.focus[:-1]
        s.res.ev("to the parent")
    elif key == "end":
        if m.focus or m.unfolded(m.focus):
            learn = "end"
        s.res.ev("to the end")
    elif key == "enter":
        f = m.field(m.focus)
        if f.is_field_set:
            if m.unfolded(m.focus):
                m.fold(m.focus)
                s.res.ev("folded")
            else:
                m.open.add(m.focus)
                s.res.ev("unfolded")
        elif f.size == 0:
            target = f.value
            if target is not None and hasattr(target, "path"):
                m.focus = m.path_of(target)
                m.reveal(m.focus)
                s.res.ev("links followed")
    else:
        learn = True
    before = m.focus
    yield [key]
    if learn == "end":
        s.check_tree("learn")
        check_end(s, m, before)
    else:
        s.check_tree("learn" if learn else "exact")
    s.check_sep()


def check_end(s, m, before):
    """end: the last field which is read of the set, or of the parent when it is
    already the last one"""
    new = m.focus
    if m.unfolded(before):
        s.expect(new[:-1] == before and (new[-1] >= min(m.least.get(before, m.preload), m.nkids(before)) - 1), "end", "from %s to %s" % (m.field(before).path, m.field(new).path))
        return
    p = before
    while p:
        # is it the last line of its set?
        if new[:-1] == p[:-1] and new[-1] >= p[-1] and (new != before):
            s.expect(new[-1] >= min(m.least.get(p[:-1], m.preload), m.nkids(p[:-1])) - 1, "end", "from %s to %s" % (m.field(before).path, m.field(new).path))
            return
        if p[-1] < m.nkids(p[:-1]) - 1 and not m.may_stop(p[:-1] + (p[-1] + 1,)):
            break
        p = p[:-1]
    s.expect(new == before, "end", "from %s to %s" % (m.field(before).path, m.field(new).path))


def random_keys(n, pages=True):
    def script(s):
        s.check_tree("exact")
        s.check_sep()
        rng = s.rng
        for _ in range(n):
            keys = ["down"] * 5 + ["up"] * 2 + ["enter"] * 4 + ["home", "end", "right", "left", "down"] + list("abhstvd")
            if pages:
                keys += ["page down", "page up"]
            key = rng.choice(keys)
            m = s.m
            if key == "enter" and m.field(m.focus).is_field_set and not m.unfolded(m.focus) and m.nkids(m.focus) > 3000:
                continue
            yield from press(s, key)
    return script


def small_script(n):
    def script(s):
        s.check_tree("learn")
        rng = s.rng
        for _ in range(n):
            key = rng.choice(["down"] * 6 + ["up"] * 3 + ["enter"] * 4 + ["page down", "page up", "home", "end", "right", "left"] + list("abhstvd") + ["+", "-"])
            if key in "+-":
                yield [key]
                s.check_tree("learn")
                s.res.ev("separator moved")
                continue
            m = s.m
            if key == "enter" and m.field(m.focus).is_field_set and not m.unfolded(m.focus) and m.nkids(m.focus) > 2000:
                continue
            old = m.rows
            yield from press(s, key)
            if m.rows != old:
                s.res.ev("views")
    return script


def walk_script(limit):
    def script(s):
        s.check_tree("exact")
        visited = {()}
        rng = s.rng
        while len(visited) < limit:
            m = s.m
            f = m.field(m.focus)
            if f.is_field_set and not m.unfolded(m.focus) and m.nkids(m.focus) and m.nkids(m.focus) < 400:
                yield from press(s, "enter")
            if rng.random() < .1:
                yield from press(s, rng.choice("abhstvd"))
            rows = [r for r in m.rows if r is not None]
            if rows and rows[-1] == m.focus and len(rows) < len(s.body):
                break
            if len(rows) >= len(s.body) - 2:
                break
            yield from press(s, "down")
            visited.add(m.focus)
        else:
            return
        m = s.m
        rows = [r for r in m.rows if r is not None]
        if len(rows) < len(s.body) - 2:
            # everything has been visited: nothing is missing
            want = 1 + sum(m.nkids(p) for p in m.open)
            s.expect(len(rows) == want, "number of lines", "%d lines for %d fields" % (len(rows), want))
            s.res.ev("whole trees")
    return script


# ------------------------------------------------------------ sessions

def run_session(res, argv, model, script, rng, label, rows=300, cols=600):
    """hachoir-urwid in this process, with a scripted screen; the driver"""
    import urwid
    import urwid.curses_display
    import hachoir.urwid as ui
    from hachoir.core.log import log
    urwid.set_encoding("utf8")
    s = Session(res, model, rows, cols, script)
    s.rng, s.label = rng, label
    model.rows_from = None
    s.charset = "UTF-8"
    screen = Screen(s, rows, cols)
    urwid.curses_display.Screen = lambda *a, **kw: screen
    from hachoir.core import i18n
    i18n.getTerminalCharset.value = "UTF-8"
    old = sys.argv
    sys.argv = ["hachoir-urwid"] + argv
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            ui.main()
    except Stop as err:
        if err.args:
            res.fail("ui:screen", "%s: %s" % (label, err))
    except SystemExit as err:
        res.fail("ui:exit", "%s: exit %s: %s" % (label, err.code, out.getvalue()[-300:]))
    except (Exception, RecursionError) as err:
        import traceback
        tb = traceback.extract_tb(err.__traceback__)
        if any(fr.filename == __file__ and fr.name not in ("next", "get_input") for fr in tb[-1:]):
            raise
        res.fail("ui:crash", "%s: after %s: %s: %s (%s)" % (label, " ".join(s.keys[-8:]), type(err).__name__, str(err)[:200],
                                                           "; ".join("%s:%d" % (os.path.basename(fr.filename), fr.lineno) for fr in tb[-4:])))
    finally:
        sys.argv = old
        log.on_new_message = None
    if s.finished:
        res.ev("sessions ended")
    return s


def forked(res, fn, seconds=100):
    """fn(res) in another process (the interface changes global state)"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 0
        try:
            os.close(r)
            signal.alarm(seconds)
            sub = Result()
            try:
                fn(sub)
                out = pickle.dumps(("ok", sub))
            except BaseException:
                import traceback
                out = pickle.dumps(("error", traceback.format_exc()))
            with os.fdopen(w, "wb") as fp:
                fp.write(out)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fp:
        data = fp.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM:
            res.ev("slow sessions")
            return
        raise RuntimeError("session died: status %d" % status)
    kind, sub = pickle.loads(data)
    if kind == "error":
        raise RuntimeError(sub)
    res.evals += sub.evals
    res.sigs += sub.sigs
    for k, v in sub.events.items():
        res.ev(k, v)
    res.viol += sub.viol[:20 - len(res.viol)]
    res.samples += sub.samples


def reference(path, **kw):
    """another instance of the tree of a file"""
    from hachoir.parser import guessParser
    from hachoir.stream import FileInputStream
    tags = kw.pop("tags", None)
    stream = FileInputStream(path, tags=tags or [], **kw)
    return guessParser(stream)


def write(tmp, name, data):
    path = os.path.join(tmp, name)
    with open(path, "wb") as fp:
        fp.write(data)
    return path


def some_file(rng, n, tmp, small=False):
    """(path, label) of a file to browse"""
    r = rng.random()
    if r < .4 and not small:
        name = rng.choice([x for x in corpus.names() if not x.endswith("fat16")])
        data = corpus.load(name)
        if len(data) > 400000:
            data = data[:400000]
        return write(tmp, name, data), name
    name = rng.choice([x for x in gen.names() if x not in LAZY])
    g = gen.make(name, rng)
    return write(tmp, "file.bin", g.data), name


# The fields of the files of a FAT file system are created when they are asked
# for, at the place of the sectors: the tree is the one of the questions
LAZY = ("fat12", "fat16", "fat32")


def lazy_case(res, rng, n, tmp):
    """fields which replace other fields while the tree is browsed"""
    path = write(tmp, "file.bin", gen.make(rng.choice(LAZY), rng).data)
    def script(s):
        for _ in range(60):
            s.expect(len(s.focus_rows) == 1, "one line is highlighted", "rows %s" % s.focus_rows[:5])
            # no two lines of the root for the same name
            names = [m.group(1) for t, _, _ in s.body for m in [re.match(r" [ +-] (?:[0-9]+\) |-> )([a-z_]+\[[0-9]+\])", t)] if m]
            s.expect(len(names) == len(set(names)), "twice", "%s" % names[:20])
            s.res.ev("screens of a changing tree")
            row = s.body[s.focus_rows[0]][0] if s.focus_rows else ""
            m = re.match(r" *-> (?:root|data)= (/.*)", row)
            if m:
                yield ["enter"]
                row = s.body[s.focus_rows[0]][0] if s.focus_rows else ""
                want = m.group(1).split(":")[0].rsplit("/", 1)[1]
                if not want.startswith("<"):
                    s.expect(re.search(r"\) %s[ =:]" % re.escape(want.split(" ")[0]), row) is not None, "link", "%r after the link to %s" % (row[:80], want))
                    s.res.ev("links of a changing tree")
            else:
                yield [s.rng.choice(["down"] * 6 + ["enter", "enter", "up", "page down", "end", "home"])]
    run_session(res, [path], Model(reference(path), 15, Flags()), script, rng, "fat", 100, 200)


def keys_case(res, rng, n, tmp, rows, cols, script, small=False, damage=False):
    path, label = some_file(rng, n, tmp, small)
    if damage:
        with open(path, "rb") as fp:
            data = fp.read()[:200000]
        data, desc = corpus.mutate(rng, data)
        path = write(tmp, "damaged.bin", data)
        label += " damaged"
    ref = reference(path)
    if ref is None:
        return
    preload = rng.choice((1, 3, 15, 15, 15, 40, 0))
    model = Model(ref, preload, Flags())
    before = open(path, "rb").read()
    run_session(res, ["--preload=%d" % preload, path], model, script, rng, label, rows, cols)
    res.expect(open(path, "rb").read() == before, "ui:read only", "%s has been changed" % label)


def pick_fields(root, rng, want, pred, limit=3000):
    """some fields of a tree"""
    out, stack, n = [], [root], 0
    while stack and n < limit:
        fs = stack.pop(0)
        for f in fs:
            n += 1
            if n > limit or f.index >= 150:
                break
            if pred(f):
                out.append(f)
            if f.is_field_set:
                stack.append(f)
    rng.shuffle(out)
    return out[:want]


def save_case(res, rng, n, tmp):
    path, label = some_file(rng, n, tmp)
    with open(path, "rb") as fp:
        data = fp.read()
    ref = reference(path)
    if ref is None:
        return
    fields = pick_fields(ref, rng, 3, lambda f: f.size and f.absolute_address % 8 == 0 and f.size % 8 == 0 and f.size < 1 << 23)
    if not fields:
        return
    out = os.path.join(tmp, "out")
    os.mkdir(out)
    os.chdir(out)
    for i, f in enumerate(fields):
        preload = rng.choice((3, 15))
        model = Model(ref, preload, Flags())
        model.focus = model.path_of(f)
        model.reveal(model.focus)
        raw = data[f.absolute_address // 8:][:f.size // 8]
        name = "save%d_%s" % (i, rng.choice(("x", "a b", "data.bin")))

        def script(s):
            s.check_tree("exact")
            # saved as it is in the file
            yield ["ctrl e"]
            s.expect(s.asking, "question", "no question for the name: %r" % s.sep[0][:80])
            s.expect(s.sep[0].endswith(out + os.sep), "question", "%r instead of the directory" % s.sep[0][-80:])
            yield list(name)
            s.expect(s.sep[0].endswith(os.path.join(out, name)), "question", "typed %r: %r" % (name, s.sep[0][-80:]))
            s.expect(not os.path.exists(name), "saved before enter", name)
            yield ["enter"]
            s.expect(not s.asking, "question", "the question is still there")
            s.check_tree("exact")
            got = read(name)
            s.expect(got == raw, "saved bytes", "%s: %s bytes saved, %d in the file" % (f.path, got and len(got), len(raw)))
            s.res.ev("fields saved")
            # a file is never replaced
            write(out, "mine", b"my file")
            count = s.status()
            yield ["ctrl e"]
            yield list("mine") + ["enter"]
            s.expect(read("mine") == b"my file", "file replaced", "an existing file has been replaced")
            s.expect(s.status() and count and s.status()[2] == count[2] + 1, "error", "no error: %s, then %s" % (count, s.status()))
            s.check_tree("exact")
            # given up
            yield ["ctrl e"]
            yield list("given") + ["esc"]
            s.expect(not os.path.exists("given") and not s.asking, "esc", "a file was written")
            # completion
            os.mkdir("directory%d" % i)
            yield ["ctrl e"]
            yield list("direc") + (["tab"])
            want = os.path.join(out, os.path.commonprefix([x for x in os.listdir(out) if x.startswith("direc")]))
            if os.path.isdir(want):
                want += os.sep
            s.expect(s.sep[0].endswith(want), "completion", "%r instead of %r" % (s.sep[0][-60:], want[-60:]))
            yield ["esc"]
            # a stream made of the field: what it holds
            try:
                content = ref[f.path].getSubIStream()
                size = content.size
                blob = content.file().read() if size is None or size < 1 << 24 else None
            except Exception:
                blob = None
            if blob is not None:
                yield ["ctrl x"]
                s.expect(s.asking, "question", "no question for the name")
                yield list("sub%d" % i) + ["enter"]
                got = read("sub%d" % i)
                s.expect(got == blob, "saved stream", "%s: %s bytes saved instead of %d" % (f.path, got and len(got), len(blob)))
                s.res.ev("streams saved")
                if blob != raw:
                    s.res.ev("decoded streams saved")
            s.check_tree("exact")
        run_session(res, ["--preload=%d" % preload, "--path=" + f.path, path], model, script, rng, "%s %s" % (label, f.path))
        reset_ui()
    res.expect(open(path, "rb").read() == data, "ui:read only", "%s has been changed" % label)


def reset_ui():
    """another session in the same process"""
    import hachoir.urwid as ui
    if hasattr(getattr(ui, "Tabbed", None), "tabs"):
        ui.Tabbed.tabs = []


def read(path):
    try:
        with open(path, "rb") as fp:
            return fp.read()
    except OSError:
        return None


def tabs_case(res, rng, n, tmp):
    from hachoir.parser import guessParser
    for _ in range(40):
        name = rng.choice([x for x in gen.names() if x not in LAZY])
        g = gen.make(name, rng)
        if g.parts:
            break
    path = write(tmp, "file.bin", g.data)
    ref = reference(path)
    if ref is None:
        return
    paths = []
    for p in g.parts:
        p = p[0] if isinstance(p, tuple) else p
        if isinstance(p, str):
            paths.append(p)
    fields = []
    for p in paths[:6]:
        try:
            fields.append(ref[p])
        except Exception:
            pass
    fields += pick_fields(ref, rng, 2, lambda f: 0 < f.size < ref.stream.size and f.size % 8 == 0 and f.absolute_address % 8 == 0)
    rng.shuffle(fields)
    for f in fields[:3]:
        if not 0 < f.size < ref.stream.size:
            continue
        model = Model(ref, 15, Flags())
        model.focus = model.path_of(f)
        model.reveal(model.focus)
        try:
            sub = guessParser(f.getSubIStream())
        except Exception:
            continue

        def script(s):
            s.check_tree("exact")
            count = s.status()
            yield [" "]
            if sub is None:
                s.expect(s.status()[2] > count[2], "error", "no error for a field which can't be parsed")
                s.check_tree("exact")
                s.check_sep()
                s.res.ev("fields without parser")
                return
            m = Model(sub, 15, Flags())
            m.rows_from = None
            s.tabs.append(["%d/%d" % (s.active, f.absolute_address), m])
            s.active = len(s.tabs) - 1
            s.check_sep()
            s.check_tree("exact")
            s.res.ev("tabs opened")
            for _ in range(8):
                yield from press(s, s.rng.choice(["down", "down", "enter", "a", "v"]))
            yield ["f1"]
            s.tabs.append(["help", None])
            s.active = 2
            s.check_sep()
            s.check_tree()
            for _ in range(8):
                key = s.rng.choice("<<>>")
                s.active = (s.active + (1 if key == ">" else -1)) % len(s.tabs)
                yield [key]
                s.check_sep()
                s.check_tree("exact")
            s.res.ev("tabs selected")
            while len(s.tabs) > 1:
                closed = s.active
                del s.tabs[closed]
                if closed == len(s.tabs):
                    s.active -= 1
                yield [s.rng.choice(("esc", "ctrl w"))]
                s.check_sep()
                s.check_tree("exact")
            s.finished = True
            s.res.ev("tabs closed")
            yield ["esc"]
            s.expect(False, "esc", "the program goes on without any tab")
        run_session(res, ["--path=" + f.path, path], model, script, rng, "%s %s" % (name, f.path))
        reset_ui()


def options_case(res, rng, n, tmp):
    name = rng.choice([x for x in gen.names() if x not in LAZY])
    g = gen.make(name, rng)
    data = g.data
    argv, kw, flags = [], {}, Flags()
    ident = None
    if rng.random() < .4:
        off = rng.choice((1, 7, 512))
        size = len(data)
        data = bytes(rng.randrange(1, 256) for _ in range(off)) + data
        argv.append("--offset=%d" % off)
        kw["offset"] = off
        if rng.random() < .6:
            data += bytes(rng.randrange(256) for _ in range(50))
            argv.append("--size=%d" % size)
            kw["size"] = size
        res.ev("option --offset")
    if rng.random() < .3:
        argv.append("--hide-value")
        flags.value = False
        res.ev("option --hide-value")
    if rng.random() < .3:
        argv.append("--hide-size")
        flags.size = False
        res.ev("option --hide-size")
    path = write(tmp, "file.bin", data)
    if rng.random() < .4:
        ident = rng.choice([g.parser, rng.choice(sorted(BY_ID))])
        argv.append("--parser=" + ident)
        kw["tags"] = [("id", ident), None]
        res.ev("option --parser")
    if rng.random() < .2:
        argv.append("--quiet")
    try:
        ref = reference(path, **kw)
    except Exception:
        return
    if ref is None:
        import hachoir.urwid as ui
        out = io.StringIO()
        old, sys.argv = sys.argv, ["hachoir-urwid"] + argv + [path]
        code = None
        try:
            with contextlib.redirect_stdout(out):
                ui.main()
        except SystemExit as err:
            code = err.code
        finally:
            sys.argv = old
        res.expect(code == 1 and "Unable to parse" in out.getvalue(), "ui:unknown file", "exit %r: %r" % (code, out.getvalue()[:100]))
        res.ev("files without parser")
        return
    preload = 15
    if rng.random() < .6:
        preload = rng.choice((0, 1, 2, 5, 30))
        argv.append("--preload=%d" % preload)
    model = Model(ref, preload, flags)
    if rng.random() < .6:
        found = pick_fields(ref, rng, 1, lambda f: True, 500)
        if found:
            argv.append("--path=" + found[0].path)
            model.focus = model.path_of(found[0])
            model.reveal(model.focus)
            res.ev("option --path")

    def script(s):
        s.check_tree("exact")
        s.check_sep()
        for _ in range(12):
            yield from press(s, s.rng.choice(["down", "up", "home", "enter", "v", "s", "h"]))
    run_session(res, argv + [path], model, script, rng, name + " " + " ".join(argv))


def pty_case(res, rng, n, tmp):
    """a real terminal: starts, draws the lines, quits"""
    import fcntl
    import pty
    import termios
    path, label = some_file(rng, n, tmp, small=True)
    ref = reference(path)
    if ref is None:
        return
    rows, cols = rng.choice(((40, 160), (25, 80), (60, 200)))
    before = open(path, "rb").read()
    e = env.child_env(TERM="xterm", LINES=str(rows), COLUMNS=str(cols))
    pid, fd = pty.fork()
    if not pid:
        try:
            os.chdir(tmp)
            os.execve(sys.executable, [sys.executable, "-W", "ignore", "-m", "hachoir.urwid", path], e)
        finally:
            os._exit(127)
    out = b""

    def wait(seconds, done=None):
        nonlocal out
        end = time.monotonic() + seconds
        while time.monotonic() < end:
            if select.select([fd], [], [], .1)[0]:
                try:
                    d = os.read(fd, 65536)
                except OSError:
                    return False
                if not d:
                    return False
                out += d
            elif done and done in out:
                return True
        return True
    status = None
    try:
        fcntl.ioctl(fd, termios.TIOCSWINSZ, struct.pack("HHHH", rows, cols, 0, 0))
        alive = wait(30, b"F1: help")
        first = out
        if alive:
            os.write(fd, b"\x1b[B")
            wait(.5)
            os.write(fd, b"q")
            wait(10)
        for _ in range(100):
            p, status = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            status = None
            time.sleep(.1)
    finally:
        if status is None:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        os.close(fd)
    text = re.sub(rb"\x1b\[[0-9;?]*[a-zA-Z]|\x1b\(B|\x1b[=>78]", b"", first).decode("utf-8", "replace")
    res.expect(status is not None and os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0, "ui:terminal:exit", "%s: status %s: %r" % (label, status, text[-300:]))
    res.expect("F1: help" in text, "ui:terminal:screen", "%s: %r" % (label, text[-300:]))
    m = Model(ref, 15, Flags())
    f = m.kids(()) and m.field((0,))
    if f:
        want = line_of(f, 1, False, m.flags, "UTF-8").strip()[:30]
        if want.isascii() and "  " not in want:
            res.expect(want in text, "ui:terminal:line", "%s: %r isn't shown: %r" % (label, want, text[:400]))
    res.expect(open(path, "rb").read() == before, "ui:read only", label)
    res.ev("terminal sessions")


def case(c):
    kind, n = c
    rng = rng_for(PID, SEED, kind, n)
    res = Result()
    tmp = tempfile.mkdtemp(prefix="c24-", dir=tmp_root())
    cwd = os.getcwd()
    try:
        if kind == "pty":
            pty_case(res, rng, n, tmp)
            return res

        def fn(res):
            os.chdir(tmp)
            if kind == "keys":
                keys_case(res, rng, n, tmp, 400, 800, random_keys(45))
            elif kind == "small":
                keys_case(res, rng, n, tmp, rng.choice((5, 12, 24, 50)), rng.choice((30, 80, 132)), small_script(50))
            elif kind == "walk":
                keys_case(res, rng, n, tmp, 900, 800, walk_script(250), small=True)
            elif kind == "save":
                save_case(res, rng, n, tmp)
            elif kind == "tabs":
                tabs_case(res, rng, n, tmp)
            elif kind == "damaged":
                keys_case(res, rng, n, tmp, 300, 800, random_keys(30), damage=True)
            elif kind == "lazy":
                lazy_case(res, rng, n, tmp)
            elif kind == "options":
                options_case(res, rng, n, tmp)
        forked(res, fn)
        return res
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    c = check.Check(PID, "one screen: (file, selected field, switches, number of lines, horizontal scrolling)",
                    required=("screens", "lines", "moves", "unfolded", "folded", "fields saved", "streams saved", "tabs opened",
                              "whole trees", "sessions ended", "to the parent", "to the end", "terminal sessions"))
    c.assumptions = ["the texts of the values and descriptions are those of another instance of the tree, which C03 and C05 decide",
                     "urwid draws what its widgets hold (but for the sessions on a real terminal)"]
    k = c.n(1, 14)
    cases = []
    for n in range(60 * k):
        cases += [("keys", n), ("small", n), ("walk", n), ("save", n), ("tabs", n), ("damaged", n), ("options", 2 * n), ("options", 2 * n + 1), ("lazy", n)]
        if n % 10 == 0:
            cases.append(("pty", n))
    c.run(case, cases, timeout=240, deadline=c.deadline(75, 900), on_timeout=c.note_timeout)
    return c.finish()


if __name__ == "__main__":
    raise SystemExit(main())
