"""Opening parsers on hostile data and walking trees without recursion."""
import os
import traceback

from vlib import env, corpus
from hachoir.core.endian import LITTLE_ENDIAN
from hachoir.field import GenericInteger, RootSeekableFieldSet
from hachoir.parser import HachoirParserList, guessParser
from hachoir.stream import StringInputStream

PARSERS = {p.PARSER_TAGS["id"]: p for p in HachoirParserList.getInstance()}
PARSER_IDS = sorted(PARSERS)


class Stop(Exception):
    pass


def stream_of(data, name=None, tags=()):
    src = "file:" + name if name else "<string>"
    s = StringInputStream(data, source=src, tags=tags)
    if name:
        s.tags = tuple(tags) + (("filename", name),)
    return s


def guess(data, name=None):
    return guessParser(stream_of(data, name))


def where(exc):
    """innermost hachoir frame of an exception: file:function"""
    best = "?"
    for fr in traceback.extract_tb(exc.__traceback__):
        if env.REPO in fr.filename and "/verif/" not in fr.filename:
            best = "%s:%s" % (os.path.relpath(fr.filename, env.REPO + "/hachoir"), fr.name)
    return best


def is_seekable(fs):
    return isinstance(fs, RootSeekableFieldSet)


def walk(root, limit=200000):
    """Yield (fieldset, [children]) for every field set, parents first.
    Children lists come from complete iteration of the set."""
    stack = [root]
    count = 0
    while stack:
        fs = stack.pop()
        children = []
        for f in fs:
            children.append(f)
            count += 1
            if count > limit:
                return
        yield fs, children
        for f in reversed(children):
            if f.is_field_set:
                stack.append(f)


_fields = {}


def int_fields(name, cap=49152, limit=2500):
    """(address, size, endian) of integer-like leaves of a corpus file, for
    structure-aware corruption."""
    if name not in _fields:
        out = []
        try:
            root = guess(corpus.load(name)[:cap], name)
            stack = [root] if root is not None else []
            while stack and len(out) < limit:
                fs = stack.pop()
                subs = []
                for i, f in enumerate(fs):
                    if i > 400:
                        break
                    if f.is_field_set:
                        subs.append(f)
                    elif 0 < f.size <= 64 and len(out) < limit:
                        out.append((f.absolute_address, f.size, f._parent.endian))
                stack.extend(reversed(subs))
        except Exception:
            pass
        _fields[name] = out
    return _fields[name]


_tables = {}


def tables(name, cap=400000):
    """Runs of at least 8 contiguous integers of the same size (allocation
    tables, indexes, chains): [(address, size, count, endian)]"""
    if name not in _tables:
        out = []
        try:
            root = guess(corpus.load(name)[:cap], name)
            stack = [root] if root is not None else []
            count = 0
            while stack and count < 6000 and len(out) < 60:
                fs = stack.pop()
                subs = []
                run = None
                for i, f in enumerate(fs):
                    count += 1
                    if i > 1200:
                        break
                    if f.is_field_set:
                        subs.append(f)
                    a = f.absolute_address
                    if not f.is_field_set and isinstance(f, GenericInteger) and f.size <= 64:
                        if run and run[1] == f.size and run[0] + run[1] * run[2] == a:
                            run[2] += 1
                            continue
                        if run and run[2] >= 8:
                            out.append(tuple(run))
                        run = [a, f.size, 1, fs.endian]
                    else:
                        if run and run[2] >= 8:
                            out.append(tuple(run))
                        run = None
                if run and run[2] >= 8:
                    out.append(tuple(run))
                stack.extend(reversed(subs))
        except Exception:
            pass
        _tables[name] = out
    return _tables[name]


def corrupt_table(rng, data, runs, fields):
    """Turn a table of references into a random graph: chains enter cycles."""
    buf = bytearray(data)
    addr, size, count, endian = rng.choice(runs)
    same = [r for r in runs if r[1:] == (size, count, endian)]
    runs = same if rng.random() < .6 else [(addr, size, count, endian)]
    big = endian != LITTLE_ENDIAN
    old = {}
    for r in runs:
        for i in range(count):
            v = bits_at(data, r[0] + i * size, size, big)
            if v is not None:
                old[r[0] + i * size] = v
    count *= len(runs)
    used = [v for v in old.values() if 0 < v < 4 * count + 64] or [count]
    top = rng.choice((count, max(used) + 1, min(count, max(used) + 1), 4))
    full = rng.random() < .7
    for a, v in old.items():
        if full or rng.random() < .3:
            put_bits(buf, a, size, rng.randrange(max(top, 1)) & ((1 << size) - 1), big)
    return bytes(buf), "table@%d+%d*%d<%d" % (addr, size, count, top)


def bits_at(data, addr, n, big):
    b0, b1 = addr // 8, -(-(addr + n) // 8)
    chunk = data[b0:b1]
    if len(chunk) != b1 - b0:
        return None
    v = int.from_bytes(chunk, "big" if big else "little")
    v >>= 8 * b1 - addr - n if big else addr - 8 * b0
    return v & ((1 << n) - 1)


def put_bits(buf, addr, n, v, big):
    for i in range(n):
        b = (v >> (n - 1 - i) if big else v >> i) & 1
        byte, sh = divmod(addr + i, 8)
        if byte >= len(buf):
            return
        if big:
            sh = 7 - sh
        buf[byte] = buf[byte] & ~(1 << sh) | b << sh


def corrupt_fields(rng, data, fields, nmax=4):
    buf = bytearray(data)
    desc = []
    fields = [f for f in fields if f[0] + f[1] <= 8 * len(data)]
    if not fields:
        return data, "same"
    for _ in range(rng.randint(1, nmax)):
        if rng.random() < .4:
            addr, n, endian = fields[rng.randrange(min(len(fields), 40))]
        else:
            addr, n, endian = rng.choice(fields)
        big = endian != LITTLE_ENDIAN
        m = (1 << n) - 1
        if rng.random() < .15:
            old = int.from_bytes(data[addr // 8:(addr + n + 7) // 8], "big" if big else "little")
            v = old + rng.choice((1, -1, 2, -2, 4, 8))
        elif rng.random() < .15:
            # refer to another field, or take its value
            a2, n2, e2 = rng.choice(fields)
            v = rng.choice((a2 // 8, bits_at(data, a2, n2, big)))
        else:
            v = rng.choice((0, 1, 2, m, m >> 1, (m >> 1) + 1, m - 1, addr // 8, addr // 8 - 4, len(data),
                            len(data) - 1, rng.randrange(len(data)), 0x10000, 0xffff, 255,
                            rng.randrange(16), rng.getrandbits(n), m >> 4, 1 << (n // 2)))
        put_bits(buf, addr, n, v & m, big)
        desc.append("field@%d+%d=%x" % (addr, n, v & m))
    return bytes(buf), ",".join(desc)


def hostile_case(rng, cap=49152, forced=0.15, rand=0.05, nmax=6, valid=0.03, only=None,
                 structured=0.4, table=0.04):
    """Return dict(data, name, desc, force)."""
    names = only or corpus.names()
    r = rng.random()
    name = rng.choice(names)
    if r < rand:
        n = rng.choice((1, 2, 8, 64, 512, 4096, 20000))
        kind = rng.randrange(3)
        if kind == 0:
            data = rng.randbytes(n)
        elif kind == 1:
            data = bytes([rng.choice((0, 0xff, 0x20, 0x41))]) * n
        else:
            data = bytes(rng.choice((0, 1, 2, 4, 8, 255, 128, 65, 80)) for _ in range(n))
        desc = "random%d:%d" % (kind, n)
    else:
        data = corpus.load(name)
        r = rng.random()
        if r < table and tables(name):
            data, desc = corrupt_table(rng, data[:400000], tables(name), None)
            return {"data": data, "name": name, "desc": desc, "force": None}
        if len(data) > cap:
            if rng.random() < .1:
                data = data[:cap]
            else:
                data = data[:rng.choice((cap, cap // 2, cap // 4))]
        if rng.random() < valid:
            desc = "asis"
        elif rng.random() < structured:
            data, desc = corrupt_fields(rng, data, int_fields(name))
            if rng.random() < .15:
                data = data[:rng.randrange(1, len(data) + 1)]
                desc += ",trunc@%d" % len(data)
        else:
            data, desc = corpus.mutate(
                rng, data, others=lambda g: corpus.load(g.choice(names)), nmax=nmax)
    force = None
    if rng.random() < forced or desc.startswith("random"):
        force = rng.choice(PARSER_IDS)
    return {"data": data, "name": name, "desc": desc, "force": force}


def open_case(c):
    if c["force"]:
        return PARSERS[c["force"]](stream_of(c["data"], c["name"]))
    return guess(c["data"], c["name"])
