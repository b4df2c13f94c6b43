"""C10: regular expression algebra keeps the language; pattern search.

Random expressions are built through the text parser and through the API; the
language of the printed, optimised result is compared with an independent
translation of the same expression to Python's re, on all short words and on
sampled words. Pattern searches are compared with a position-by-position
oracle."""
import itertools
import re
import warnings

from vlib import check
from vlib.check import Result, rng_for
from vlib.env import SEED
from hachoir.regex import (
    PatternMatching, RegexDot, RegexEmpty, RegexEnd, RegexRange, RegexRangeCharacter, RegexRangeItem, RegexRepeat,
    RegexStart, RegexString, RegexWord, createRange, createString, parse)
from hachoir.regex.regex import RegexAnd, RegexOr

PID = "C10"
warnings.simplefilter("ignore")
SPECIAL = "ab-]^\\[.*+?(){}|$ \n\"'0z"
CMD = '.^$[](){}|+?*\\'


# --------------------------------------------------- expressions (tuples)

def gen(rng, depth, alpha, rep=True, anchors=False):
    r = rng.random()
    if depth <= 0 or r < .32:
        return ("str", "".join(rng.choice(alpha) for _ in range(rng.choice((1, 1, 1, 2, 2, 3, 4)))))
    if r < .45:
        items = []
        for _ in range(rng.randint(1, 4)):
            a = rng.choice(alpha)
            if rng.random() < .35:
                b = rng.choice(alpha)
                a, b = min(a, b), max(a, b)
                if rng.random() < .2:
                    b = chr(min(255, ord(b) + rng.randint(0, 3)))
                items.append((a, b))
            else:
                items.append((a, a))
        return ("rng", tuple(items), rng.random() < .12)
    if r < .49:
        return ("dot",)
    if r < .51:
        return ("empty",)
    if anchors and r < .54:
        return (rng.choice(("start", "end", "word")),)
    if r < .7:
        return ("and",) + tuple(gen(rng, depth - 1, alpha, rep, anchors) for _ in range(rng.randint(2, 4)))
    if r < .86 or not rep:
        kids = [gen(rng, depth - 1, alpha, rep, anchors) for _ in range(rng.randint(2, 5))]
        if rng.random() < .4:
            # alternatives with a common prefix
            p = gen(rng, 0, alpha)
            kids = [("and", p, k) if rng.random() < .8 else k for k in kids]
        if rng.random() < .15:
            kids[rng.randrange(len(kids))] = ("empty",)
        return ("or",) + tuple(kids)
    lo, hi = rng.choice(((0, None), (1, None), (0, 1), (2, None), (0, 2), (2, 3), (1, 2), (2, 2), (3, 5), (1, 3), (0, 3),
                         (3, None), (4, 5), (1, 4)))
    return ("rep", gen(rng, depth - 1, alpha, rep), lo, hi)


def nodes(e):
    yield e
    for k in e[1:]:
        if isinstance(k, tuple) and k and isinstance(k[0], str) and e[0] in ("and", "or", "rep"):
            yield from nodes(k)


def excluded(e):
    """Expressions which belong to the two recorded findings."""
    for n in nodes(e):
        if n[0] == "or":
            if sum(1 for k in nodes(n) if k[0] == "rng" and k[2]) >= 2:
                return True
        if n[0] == "rep" and n[3] is None:
            for k in nodes(n[1]):
                if k[0] == "or":
                    reps = [x for x in nodes(k) if x[0] == "rep"]
                    if any(x[2] >= 2 for x in reps) and any(x[3] is None for x in reps):
                        return True
        if n[0] == "rep" and n[1][0] in ("start", "end", "word", "empty"):
            return True
    return False


def has(e, *kinds):
    return any(n[0] in kinds for n in nodes(e))


def to_re(e):
    """Independent translation to Python's re syntax."""
    k = e[0]
    if k == "str":
        return "".join(re.escape(c) for c in e[1])
    if k == "rng":
        return "[%s%s]" % ("^" if e[2] else "", "".join(
            "\\x%02x-\\x%02x" % (ord(a), ord(b)) for a, b in e[1]))
    if k == "dot":
        return "[\\x00-\\U0010ffff]"
    if k == "empty":
        return "(?:)"
    if k in ("start", "end", "word"):
        return {"start": "^", "end": "$", "word": "\\b"}[k]
    if k == "and":
        return "".join(to_re(x) for x in e[1:])
    if k == "or":
        return "(?:%s)" % "|".join(to_re(x) for x in e[1:])
    lo, hi = e[2], e[3]
    return "(?:%s){%d,%s}" % (to_re(e[1]), lo, "" if hi is None else hi)


def to_text(rng, e, top=True):
    """The syntax of hachoir.regex.parse()."""
    k = e[0]
    if k == "str":
        return "".join("\\" + c if c in CMD else c for c in e[1])
    if k == "rng":
        out = []
        first = last = ""
        for a, b in e[1]:
            if a == b:
                if a == "]":
                    if rng.random() < .5:
                        first = "]"
                    else:
                        out.append("\\]")
                elif a == "-":
                    if rng.random() < .5:
                        last = "-"
                    else:
                        out.append("\\-")
                elif a in "\\^":
                    out.append("\\" + a)
                else:
                    out.append(a)
            else:
                out.append("%s-%s" % (a, b))
        return "[%s%s%s%s]" % ("^" if e[2] else "", first, "".join(out), last)
    if k == "dot":
        return "."
    if k == "empty":
        return ""
    if k in ("start", "end", "word"):
        return {"start": "^", "end": "$", "word": "\\b"}[k]
    if k == "and":
        return "".join(to_text(rng, x) if x[0] != "or" else to_text(rng, x) for x in e[1:])
    if k == "or":
        return "(%s%s)" % ("?:" if rng.random() < .3 else "", "|".join(to_text(rng, x) for x in e[1:]))
    t = to_text(rng, e[1])
    if e[1][0] not in ("rng", "dot", "or") and not (e[1][0] == "str" and len(e[1][1]) == 1):
        t = "(%s)" % t
    lo, hi = e[2], e[3]
    if (lo, hi) in ((0, None), (1, None), (0, 1)):
        return t + {(0, None): "*", (1, None): "+", (0, 1): "?"}[lo, hi]
    if lo == hi:
        return "%s{%d}" % (t, lo)
    return "%s{%d,%s}" % (t, lo, "" if hi is None else hi)


def to_api(rng, e, made):
    """Build the expression with the API; remember every intermediate."""
    k = e[0]
    if k == "str":
        r = createString(e[1]) if rng.random() < .7 else RegexString(e[1])
    elif k == "rng":
        if all(a == b for a, b in e[1]) and rng.random() < .6:
            r = createRange(*[a for a, b in e[1]], exclude=e[2])
        else:
            r = RegexRange([RegexRangeCharacter(a) if a == b else RegexRangeItem(ord(a), ord(b))
                            for a, b in e[1]], e[2])
    elif k == "dot":
        r = RegexDot()
    elif k == "empty":
        r = RegexEmpty()
    elif k in ("start", "end", "word"):
        r = {"start": RegexStart, "end": RegexEnd, "word": RegexWord}[k]()
    elif k in ("and", "or"):
        kids = [to_api(rng, x, made) for x in e[1:]]
        if rng.random() < .3:
            r = (RegexAnd if k == "and" else RegexOr).join(kids)
        elif rng.random() < .4:
            # right to left
            r = kids[-1]
            for x in reversed(kids[:-1]):
                r = (x & r) if k == "and" else (x | r)
        else:
            r = kids[0]
            for x in kids[1:]:
                if k == "or":
                    r = r | x
                else:
                    r = r + x if rng.random() < .5 else r & x
    else:
        r = RegexRepeat(to_api(rng, e[1], made), e[2], e[3])
    made.append((e, r))
    return r


def lengths(e):
    """Exact (minimum, maximum) length of the words."""
    k = e[0]
    if k == "str":
        return len(e[1]), len(e[1])
    if k in ("rng", "dot"):
        return 1, 1
    if k in ("empty", "start", "end", "word"):
        return 0, 0
    if k == "and":
        a = [lengths(x) for x in e[1:]]
        return sum(x[0] for x in a), None if any(x[1] is None for x in a) else sum(x[1] for x in a)
    if k == "or":
        a = [lengths(x) for x in e[1:]]
        return min(x[0] for x in a), None if any(x[1] is None for x in a) else max(x[1] for x in a)
    lo, hi = lengths(e[1])
    if hi == 0:
        return 0, 0
    return lo * e[2], None if (e[3] is None or hi is None) else hi * e[3]


def sample(rng, e):
    """A word of the language."""
    k = e[0]
    if k == "str":
        return e[1]
    if k == "rng":
        if e[2]:
            return "q"
        a, b = rng.choice(e[1])
        return chr(rng.randint(ord(a), ord(b)))
    if k == "dot":
        return rng.choice("abz.\n")
    if k == "and":
        return "".join(sample(rng, x) for x in e[1:])
    if k == "or":
        return sample(rng, rng.choice(e[1:]))
    if k == "rep":
        n = rng.randint(e[2], e[3] if e[3] is not None else e[2] + 3)
        return "".join(sample(rng, e[1]) for _ in range(n))
    return ""


SHORT = ["".join(w) for n in range(5) for w in itertools.product("abc", repeat=n)] + \
    ["".join(w) for n in (5, 6, 7) for w in itertools.product("ab", repeat=n)] + ["a" * n for n in range(8, 20)]


def words(rng, e, alpha):
    out = set(rng.sample(SHORT, 120)) if alpha == "abc" else set()
    out.update("".join(rng.choice(alpha) for _ in range(rng.randint(0, 4))) for _ in range(25))
    for _ in range(25):
        w = sample(rng, e)
        if len(w) > 30:
            continue
        out.add(w)
        if w:
            i = rng.randrange(len(w))
            out.add(w[:i] + w[i + 1:])
            out.add(w[:i] + rng.choice(alpha) + w[i:])
            out.add(w[:i] + rng.choice(alpha) + w[i + 1:])
            out.add(w + w[-1])
    out.add("")
    out.update(alpha)
    # nested repetitions backtrack a lot
    if any(has(x[1], "rep") for x in nodes(e) if x[0] == "rep"):
        out = {w for w in out if len(w) <= 9}
    return sorted(out)


def compare(res, rng, e, r, how, alpha, ws=None):
    """Is the language of regex object r the one of expression e?"""
    try:
        text = str(r)
        pat = re.compile(text, re.DOTALL)
        variants = [("str", pat), ("compile", r.compile()), ("python", r.compile(python=True))]
    except Exception as err:
        res.fail("print:%s:%s" % (how.split(" ")[0], type(err).__name__), "%s %r: %r" % (how, e, err))
        return False
    oracle = re.compile(to_re(e), re.DOTALL)
    anchored = has(e, "start", "end", "word")
    ok = True
    for w in ws or words(rng, e, alpha):
        want = bool(oracle.search(w)) if anchored else bool(oracle.fullmatch(w))
        for name, p in variants:
            got = bool(p.search(w)) if anchored else bool(p.fullmatch(w))
            res.evals += 1
            if got != want:
                res.fail("language:%s" % how.split(" ")[0],
                         "%s: %r printed as %r (%s): %r %s, expected %s" % (
                             how, to_re(e), text, name, w, "matches" if got else "does not match", want))
                return False
        if want:
            res.ev("words in the language")
        else:
            res.ev("words not in the language")
    lo, hi = lengths(e)
    glo, ghi = r.minLength(), r.maxLength()
    if glo != lo or ghi != hi:
        # bounds may be loose, never wrong
        if glo > lo or (ghi is not None and (hi is None or ghi < hi)) or glo < 0:
            res.fail("length bounds", "%s: %r (%s): (%r, %r), the words are of (%r, %r) characters" % (
                how, to_re(e), text, glo, ghi, lo, hi))
            ok = False
        else:
            res.ev("loose bounds")
            simple = not has(e, "or", "rep")
            if simple:
                res.fail("length bounds:loose", "%s: %r (%s): (%r, %r) instead of (%r, %r)" % (
                    how, to_re(e), text, glo, ghi, lo, hi))
    return ok


def too_big(e, limit=300):
    lo, hi = lengths(e)
    n = sum(1 for _ in nodes(e))
    deep = [x for x in nodes(e) if x[0] == "rep" and x[3] is None and has(x[1], "rep")]
    if any(has(y[1], "rep") for x in nodes(e) if x[0] == "rep" for y in nodes(x[1]) if y[0] == "rep"):
        return True         # matching would take ages
    return lo > 60 or (hi or 0) > limit or n > 40 or len(deep) > 2


def expression(res, rng):
    alpha = rng.choice(("abc", "abc", SPECIAL, "ab-]^\\"))
    anchors = rng.random() < .1
    e = gen(rng, rng.randint(1, 4), alpha, anchors=anchors)
    if excluded(e) or too_big(e):
        res.ev("expressions not used")
        return
    ws = words(rng, e, alpha)
    # 1. through the text syntax
    items = [n for n in nodes(e) if n[0] == "rng"]
    textable = all(("]" not in a + b and "\\" not in a + b and "^" not in a + b and "-" not in a + b) or a == b
                   for n in items for a, b in n[1])
    r1 = None
    if textable:
        text = to_text(rng, e)
        try:
            r1 = parse(text)
        except Exception as err:
            res.fail("parse:%s" % type(err).__name__, "parse(%r) raises %r" % (text, err))
        else:
            compare(res, rng, e, r1, "parse %r" % text, alpha, ws)
            res.ev("parsed expressions")
    # 2. through the API
    made = []
    try:
        r2 = to_api(rng, e, made)
    except Exception as err:
        res.fail("api:%s" % type(err).__name__, "building %r raises %r" % (to_re(e), err))
        return
    compare(res, rng, e, r2, "api", alpha, ws)
    res.ev("built expressions")
    # the operands are still what they were
    for se, sr in rng.sample(made, min(len(made), 4)):
        if not excluded(se):
            compare(res, rng, se, sr, "operand of a later operation", alpha)
            res.ev("operands checked again")
    if rng.random() < .3:
        str(r2)
        extra = createString(rng.choice(alpha))
        r3 = r2 + extra
        e3 = ("and", e, ("str", extra.text))
        compare(res, rng, e3, r3, "append", alpha)
        compare(res, rng, e, r2, "operand of append", alpha, ws)
        r4 = extra | r2
        e4 = ("or", ("str", extra.text), e)
        if not excluded(e4):
            compare(res, rng, e4, r4, "alternative", alpha)
            compare(res, rng, e, r2, "operand of |", alpha, ws)
    # 3. what is printed can be read again
    if r1 is not None and rng.random() < .5:
        t = str(r1)
        try:
            again = parse(t)
        except Exception as err:
            res.fail("reparse:%s" % type(err).__name__, "parse(str(parse(%r))) = parse(%r) raises %r" % (text, t, err))
        else:
            compare(res, rng, e, again, "reparse %r" % t, alpha, ws)
            res.ev("printed expressions parsed again")
    if r1 is not None and (r1 == r2) not in (True, False):
        res.fail("eq", "== is not a boolean")
    res.seen(to_re(e))


def search(res, rng):
    alpha = rng.choice(("ab", "abc", "abM\0\xff.", SPECIAL))
    pm = PatternMatching()
    pats = []
    strings = {}
    for _ in range(rng.randint(1, 6)):
        if rng.random() < .55:
            t = "".join(rng.choice(alpha) for _ in range(rng.randint(1, 5)))
            user = object()
            pm.addString(t, user)
            if t not in strings:
                strings[t] = user
                pats.append((re.compile(re.escape(t), re.DOTALL), user, t, "string"))
            continue
        e = gen(rng, rng.randint(1, 3), alpha)
        if excluded(e) or too_big(e, 40):
            continue
        lo, hi = lengths(e)
        items = [n for n in nodes(e) if n[0] == "rng"]
        if not all(a == b or not set(a + b) & set("]\\^-") for n in items for a, b in n[1]):
            continue
        text = to_text(rng, e)
        if hi is None:
            try:
                pm.addRegex(text, None)
            except ValueError:
                res.ev("unbounded patterns refused")
                res.evals += 1
            else:
                res.fail("search:unbounded", "unbounded %r is accepted" % text)
            continue
        if lo == 0:
            continue
        user = object()
        pm.addRegex(text, user)
        pats.append((re.compile(to_re(e), re.DOTALL), user, text, "regex"))
    if sum(1 for p in pats if "[^" in p[2]) >= 2:
        return
    if rng.random() < .2:
        list(pm.search("ab"))      # commit, then add more
        t = "".join(rng.choice(alpha) for _ in range(rng.randint(1, 5)))
        user = object()
        pm.addString(t, user)
        if t not in strings:
            strings[t] = user
            pats.append((re.compile(re.escape(t), re.DOTALL), user, t, "string"))
    data = "".join(rng.choice(alpha) for _ in range(rng.randint(0, 40)))
    if strings and rng.random() < .5:
        i = rng.randint(0, len(data))
        data = data[:i] + rng.choice(sorted(strings)) + data[i:]
    what = "%r in %r" % ([p[2] for p in pats], data)
    try:
        found = list(pm.search(data))
    except Exception as err:
        res.fail("search:raise:%s" % type(err).__name__, "%s: search raises %r" % (what, err))
        return
    res.evals += 1
    if not pats:
        if found:
            res.fail("search:none", "%s: matches without pattern" % what)
        return
    pos = 0
    for start, end, item in found:
        first = next((i for i in range(pos, len(data)) if any(p.match(data, i) for p, _, _, _ in pats)), None)
        if start != first:
            res.fail("search:position", "%s: match at %r, the leftmost one after %d is at %r" % (
                what, start, pos, first))
            return
        mine = [(p, t, k) for p, u, t, k in pats if u is item.user]
        if len(mine) != 1:
            res.fail("search:user", "%s: unknown pattern %r" % (what, item))
            return
        if not mine[0][0].fullmatch(data, start, end):
            res.fail("search:pattern", "%s: [%d:%d] is not a match of %r" % (what, start, end, mine[0][1]))
            return
        if (item.__class__.__name__ == "StringPattern") != (mine[0][2] == "string"):
            res.fail("search:kind", "%s: %r" % (what, item))
        pos = end
        res.ev("matches checked")
        res.evals += 1
    rest = next((i for i in range(pos, len(data)) if any(p.match(data, i) for p, _, _, _ in pats)), None)
    if rest is not None:
        res.fail("search:missed", "%s: a match at %d is missed (%r)" % (what, rest, found))
    want = max(len(t) if k == "string" else 0 for _, _, t, k in pats)
    if pm.max_length < want:
        res.fail("search:max_length", "%s: max_length is %r" % (what, pm.max_length))
    res.ev("searches")
    res.seen("search", len(pats), len(found), data[:10])


PROBES = [("(a{2,}|b)*", ("rep", ("or", ("rep", ("str", "a"), 2, None), ("str", "b")), 0, None)),
          ("(a{5,}|b)+", ("rep", ("or", ("rep", ("str", "a"), 5, None), ("str", "b")), 1, None)),
          ("(a{2,}|b){3,}", ("rep", ("or", ("rep", ("str", "a"), 2, None), ("str", "b")), 3, None)),
          ("([^ab]|[^ac])", ("or", ("rng", (("a", "a"), ("b", "b")), True), ("rng", (("a", "a"), ("c", "c")), True)))]


def probes(res):
    """Expressions whose wrong result is required by the test suite."""
    for text, e in PROBES:
        r = parse(text)
        p = r.compile()
        o = re.compile(to_re(e), re.DOTALL)
        bad = [w for w in SHORT if bool(p.fullmatch(w)) != bool(o.fullmatch(w))]
        res.evals += len(SHORT)
        if bad:
            res.fail("probe:%s=>%s" % (text, r), "parse(%r) is printed as %r: differs on %r" % (text, str(r), bad[:3]))


def case(seed):
    rng = rng_for(PID, SEED, seed)
    res = Result()
    if seed == 0:
        probes(res)
    for _ in range(8):
        if rng.random() < .7:
            expression(res, rng)
        else:
            search(res, rng)
    return res


def main():
    c = check.Check(PID, "one expression (its text), or one search",
                    required=("parsed expressions", "built expressions", "words in the language",
                              "words not in the language", "searches", "matches checked", "unbounded patterns refused",
                              "printed expressions parsed again", "operands checked again"))
    c.assumptions = ["words: all of up to 4 letters of a 3-letter alphabet and 7 of a 2-letter one (sampled), words of the "
                     "language and their neighbours", "'.' is any character"]
    c.run(case, range(c.n(6000, 200000)), timeout=120, deadline=c.deadline(50, 840), on_timeout=c.note_timeout)
    return c.finish()


if __name__ == "__main__":
    raise SystemExit(main())
