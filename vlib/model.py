"""Independent decoders used as oracles (no hachoir import)."""
import struct
from datetime import datetime, timedelta
from fractions import Fraction

BIG, LITTLE, MIDDLE = "big", "little", "middle"


def bits(data, addr, n, endian):
    """n bits at bit address addr, or None when they are not all there.
    big: most significant bit first; little: least significant bit first;
    middle: big endian after swapping the bytes of each 16-bit word."""
    if n == 0:
        return 0
    if addr < 0:
        return None
    if endian == MIDDLE:
        w0, w1 = addr // 16, -(-(addr + n) // 16)
        chunk = data[2 * w0:2 * w1]
        if len(chunk) != 2 * (w1 - w0):
            return None
        sw = bytearray(chunk)
        sw[0::2], sw[1::2] = chunk[1::2], chunk[0::2]
        v = int.from_bytes(sw, "big")
        return (v >> (16 * w1 - addr - n)) & ((1 << n) - 1)
    b0, b1 = addr // 8, -(-(addr + n) // 8)
    chunk = data[b0:b1]
    if len(chunk) != b1 - b0:
        return None
    if endian == BIG:
        return (int.from_bytes(chunk, "big") >> (8 * b1 - addr - n)) & ((1 << n) - 1)
    return (int.from_bytes(chunk, "little") >> (addr - 8 * b0)) & ((1 << n) - 1)


def signed(v, n):
    return v - (1 << n) if v >> (n - 1) else v


def f32(raw, endian):
    return struct.unpack((">" if endian == BIG else "<") + "f", raw)[0]


def f64(raw, endian):
    return struct.unpack((">" if endian == BIG else "<") + "d", raw)[0]


def f80(raw, endian):
    """Fraction, or None for infinities and NaN"""
    v = int.from_bytes(raw, endian)
    s, e, m = v >> 79, (v >> 64) & 0x7fff, v & ((1 << 64) - 1)
    if e == 0x7fff:
        return None
    f = Fraction(m) * (Fraction(2) ** (max(e, 1) - 16383 - 63))
    return -f if s else f


UNIX = datetime(1970, 1, 1)
MAC = datetime(1904, 1, 1)
UUID = datetime(1582, 10, 15)
WIN = datetime(1601, 1, 1)


def epoch(base, seconds=0, us=0):
    try:
        return base + timedelta(seconds=seconds, microseconds=us)
    except OverflowError:
        return None
