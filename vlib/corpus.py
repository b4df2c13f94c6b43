"""Corpus files and the mutation engine."""
import os
import struct

from vlib import env

_cache = {}


def names():
    return sorted(n for n in os.listdir(env.FILES)
                  if os.path.isfile(os.path.join(env.FILES, n)))


def load(name):
    if name not in _cache:
        with open(os.path.join(env.FILES, name), "rb") as fp:
            _cache[name] = fp.read()
    return _cache[name]


INT8 = [0, 1, 0x7f, 0x80, 0xff, 0x20, 0x0a]
INT16 = [0, 1, 0x7f, 0xff, 0x100, 0x7fff, 0x8000, 0xffff]
INT32 = [0, 1, 0xff, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x01000000]


def mutate(rng, data, others=None, nmax=6, header_bias=0.6):
    """Return (mutated bytes, description)."""
    data = bytearray(data)
    desc = []
    for _ in range(rng.randint(1, nmax)):
        n = len(data)
        if n == 0:
            data = bytearray(b"\0")
            n = 1

        def pos():
            if rng.random() < header_bias:
                return rng.randrange(min(n, rng.choice((16, 64, 256, 1024))))
            return rng.randrange(n)
        op = rng.randrange(12)
        if op == 0:
            p = pos()
            data[p] ^= 1 << rng.randrange(8)
            desc.append("bit@%d" % p)
        elif op in (1, 2):
            p = pos()
            data[p] = rng.choice(INT8) if rng.random() < .7 else rng.randrange(256)
            desc.append("byte@%d" % p)
        elif op == 3:
            p = pos()
            v = struct.pack(rng.choice("<>") + "H", rng.choice(INT16))
            data[p:p + 2] = v[:max(0, n - p)]
            desc.append("u16@%d" % p)
        elif op in (4, 5):
            p = pos()
            v = struct.pack(rng.choice("<>") + "I", rng.choice(INT32))
            data[p:p + 4] = v[:max(0, n - p)]
            desc.append("u32@%d" % p)
        elif op == 6 or op == 7:
            if rng.random() < .5:
                k = rng.randrange(1, n + 1)
            else:
                k = max(1, n - rng.randrange(1, 64))
            del data[k:]
            desc.append("trunc@%d" % k)
        elif op == 8:
            p = pos()
            k = rng.randint(1, 32)
            del data[p:p + k]
            desc.append("del@%d+%d" % (p, k))
        elif op == 9:
            p = pos()
            k = rng.randint(1, 32)
            ins = bytes(rng.randrange(256) for _ in range(k)) if rng.random() < .5 \
                else bytes([rng.choice(INT8)]) * k
            data[p:p] = ins
            desc.append("ins@%d+%d" % (p, k))
        elif op == 10:
            p = pos()
            k = rng.randint(1, 64)
            q = rng.randrange(n)
            data[q:q] = data[p:p + k]
            desc.append("dup@%d+%d->%d" % (p, k, q))
        else:
            if others and rng.random() < .5:
                o = others(rng)
                a = rng.randrange(len(o))
                k = rng.randint(1, 256)
                p = pos()
                data[p:p + k] = o[a:a + k]
                desc.append("splice@%d" % p)
            else:
                p = pos()
                k = rng.randint(1, 16)
                fill = rng.choice((0, 0xff))
                e = min(n, p + k)
                data[p:e] = bytes([fill]) * (e - p)
                desc.append("fill@%d" % p)
    if not data:
        data = bytearray(b"\0")
    return bytes(data), ",".join(desc)
