"""RAR, ACE, ARJ, 7z, Mozilla archives, Starfighter archives, bills of materials."""
import binascii
import datetime
import hashlib
import zlib

from vlib.gen import G, gen, pack, rbytes, word
from vlib.gen.archive import content, filename, msdos32, msdos_date

RAR_OS = {0: "MS DOS", 1: "OS/2", 2: "Win32", 3: "Unix"}
RAR_METHOD = {0x30: "Storing", 0x31: "Fastest compression", 0x32: "Fast compression", 0x33: "Normal compression",
              0x34: "Good compression", 0x35: "Best compression"}
RAR_FILE_FLAGS = ("continued_from", "continued_in", "is_encrypted", "has_comment", "is_solid")
RAR_ARCHIVE_FLAGS = ("vol", "has_comment", "is_locked", "is_solid", "new_numbering", "has_authenticity_information",
                     "is_protected", "is_passworded", "is_first_vol", "is_encrypted")
ATTRS = ("read_only", "hidden", "system", None, "directory", "archive", "device", "normal", "temporary", "sparse_file",
         "reparse_file", "compressed", "offline", "dont_index_content", "encrypted")


def crc16(data):
    return binascii.crc32(data) & 0xffff


def fsize(n):
    """text of a size in bytes"""
    if n < 10000:
        return "%d bytes" % n
    for unit in ("KB", "MB", "GB", "TB"):
        n /= 1024
        if n < 1024:
            return "%.1f %s" % (n, unit)


def attributes(g, path, value):
    for bit, name in enumerate(ATTRS):
        if name:
            g.f(path + name, bool(value >> bit & 1))


@gen("archive")
def rar(rng):
    g = G("rar", "rar")
    out = bytearray()

    def block(kind, flags, body, data=b"", crc=None):
        head = pack("<BHH", kind, flags, 7 + len(body)) + body
        pos = len(out)
        raw = pack("<H", crc16(head) if crc is None else crc) + head + data
        out.extend(raw)
        return pos, len(raw)

    def common(path, kind, pos, size, hsize):
        g.at(path, pos, size)
        g.f(path + "/block_type", kind)
        g.f(path + "/block_size", hsize)
        g.f(path + "/crc16", int.from_bytes(out[pos:pos + 2], "little"))

    out.extend(b"Rar!\x1a\x07\0")
    common("marker", 0x72, 0, 7, 7)
    aflags = rng.getrandbits(10) & ~0x82        # no embedded comment, no encrypted headers
    extra = rbytes(rng, 1) if aflags & 0x200 else b""
    pos, size = block(0x73, aflags, bytes(6) + extra)
    common("archive_start", 0x73, pos, size, 13 + len(extra))
    for bit, name in enumerate(RAR_ARCHIVE_FLAGS):
        g.f("archive_start/flags/" + name, bool(aflags >> bit & 1))
    counts = {}
    n = rng.randint(1, 7)
    for i in range(n):
        kind = rng.choice((0x74,) * 5 + (0x7a, 0x78, 0x79, 0x7e, 0x77, 0x76))
        if i == 0:
            kind = 0x74
        if kind in (0x74, 0x7a):
            data = content(rng)
            is_dir = kind == 0x74 and rng.random() < .15
            if is_dir:
                data = b""
            base = "file" if kind == 0x74 else "new_sub_block"
            name = filename(rng, i).replace("/", "\\") if kind == 0x74 else rng.choice(("CMT", "ACL", "STM", "RR"))
            flags = 0x8000 | rng.getrandbits(5) & (0x1f if kind == 0x74 else 0x13)
            dic = 7 if is_dir else rng.choice((0, 1, 2, 3, 4))
            flags |= dic << 5
            rawname = name.encode()
            if kind == 0x74 and rng.random() < .25:
                flags |= 0x200
                if rng.random() < .6:
                    name = "\xe9\u20ac%s" % name
                    rawname = name.encode("utf-8")
                    g.use("UTF-8 names")
                else:
                    rawname += b"\0" + rbytes(rng, rng.randint(1, 20))
                    g.use("names in two encodings")
            elif rng.random() < .2:
                name = "\xe9t\xe9_" + name
                rawname = name.encode("latin-1")
            large = rng.random() < .2
            salt = rbytes(rng, 8) if flags & 4 and rng.random() < .7 else b""
            ext = kind == 0x74 and rng.random() < .4
            flags |= (0x100 if large else 0) | (0x400 if salt else 0) | (0x1000 if ext else 0)
            flags |= rng.choice((0, 0x800)) | rng.choice((0, 0x4000))
            d = msdos_date(rng)
            os_ = rng.choice(tuple(RAR_OS))
            ver, method = rng.choice((15, 20, 26, 29, 36)), rng.choice(tuple(RAR_METHOD))
            attr = rng.getrandbits(15) & ~8 if os_ in (0, 2) else rng.getrandbits(32)
            crc, usize = rng.getrandbits(32), rng.choice((len(data), rng.randrange(1 << 32)))
            body = pack("<IIBIIBBHI", len(data), usize, os_, crc, msdos32(d), ver, method, len(rawname), attr)
            if large:
                body += pack("<II", 0, rng.choice((0, 0, 1, 5)))
                g.use("64-bit sizes")
            body += rawname + salt
            times = []
            if ext:
                tflags, tail = 0, b""
                for k in range(4):
                    if rng.random() < .6:
                        rem = rng.randrange(4)
                        tflags |= (8 | rem | rng.choice((0, 4))) << (3 - k) * 4
                        if k:
                            t = msdos_date(rng)
                            times.append(t)
                            tail += pack("<I", msdos32(t))
                        tail += rbytes(rng, rem)
                body += pack("<H", tflags) + tail
                g.use("extended times")
            unknown = rbytes(rng, rng.randint(1, 9)) if rng.random() < .2 else b""
            body += unknown
            k = counts[base] = counts.get(base, -1) + 1
            pos, size = block(kind, flags, body, data)
            e = "%s[%d]" % (base, k)
            common(e, kind, pos, size, 7 + len(body))
            for bit, fname in enumerate(RAR_FILE_FLAGS):
                g.f("%s/flags/%s" % (e, fname), bool(flags >> bit & 1))
            g.f(e + "/flags/dictionary_size", dic)
            for bit, fname in ((8, "is_large"), (9, "is_unicode"), (10, "has_salt"), (11, "uses_file_version"), (12, "has_ext_time"),
                               (14, "is_ignorable"), (15, "has_added_size")):
                g.f("%s/flags/%s" % (e, fname), bool(flags >> bit & 1))
            g.fs(e + "/", compressed_size=len(data), uncompressed_size=usize, host_os=os_, crc32=crc, ftime=d, version=ver,
                 method=method, filename_length=len(rawname), filename=name)
            g.disp(e + "/host_os", RAR_OS[os_])
            g.disp(e + "/method", RAR_METHOD[method])
            g.disp(e + "/version", "%d.%d" % divmod(ver, 10))
            g.disp(e + "/crc32", "0x%08x" % crc)
            if os_ in (0, 2):
                attributes(g, e + "/file_attr/", attr)
            else:
                g.f(e + "/file_attr", attr)
            if kind == 0x74:
                if all(32 <= ord(c) < 127 for c in name):
                    g.desc(e, 'File entry: "%s" (%s)' % (name, fsize(len(data))))
                for j, t in enumerate(times):
                    g.f("%s/extra_time/dos_time[%d]" % (e, j), t)
            if data:
                g.at(e + "/compressed_data", pos + 7 + len(body), len(data))
                g.f(e + "/compressed_data", data)
            else:
                g.absent(e + "/compressed_data")
            if unknown:
                g.at(e + "/unknown", pos + 7 + len(body) - len(unknown), len(unknown))
        elif kind == 0x78:
            data = content(rng, 1)
            vals = rng.randrange(256), rng.randrange(1 << 16), rng.randrange(1 << 32)
            pos, size = block(kind, 0x8000, pack("<IBHI", len(data), *vals) + b"Protect!", data)
            k = counts["recovery"] = counts.get("recovery", -1) + 1
            e = "recovery[%d]" % k
            common(e, kind, pos, size, 26)
            g.fs(e + "/", total_size=len(data), version=vals[0], rec_sectors=vals[1], total_blocks=vals[2], mark=b"Protect!")
            g.use("recovery")
        elif kind == 0x77:
            data = content(rng, 1)
            pos, size = block(kind, 0x8000, pack("<IHB", len(data), 0x100 + rng.randrange(6), rng.randrange(256)), data)
            k = counts["sub_block"] = counts.get("sub_block", -1) + 1
            common("sub_block[%d]" % k, kind, pos, size, 14)
            g.use("old sub-blocks")
        elif kind == 0x76:
            vals = 20, 0x33, rng.randrange(256), rng.getrandbits(32)
            data = rbytes(rng, rng.randint(1, 40))
            pos, size = block(kind, 0, pack("<BBBI", *vals) + data)
            k = counts["av_info"] = counts.get("av_info", -1) + 1
            e = "av_info[%d]" % k
            common(e, kind, pos, size, 14 + len(data))
            g.fs(e + "/", version=20, method=0x33, av_version=vals[2], av_crc=vals[3])
            g.use("old authenticity")
        elif kind == 0x79:
            if "signature" in counts:
                continue
            counts["signature"] = 0
            d = msdos_date(rng)
            names = word(rng).encode(), word(rng).encode()
            pos, size = block(kind, 0, pack("<IHH", msdos32(d), len(names[0]), len(names[1])) + names[0] + names[1])
            common("signature", kind, pos, size, 15 + len(names[0] + names[1]))
            g.fs("signature/", creation_time=d, arc_name_size=len(names[0]), user_name_size=len(names[1]))
            g.use("signatures")
        else:
            # a kind of blocks which does not exist yet
            data = content(rng, 1) if rng.random() < .6 else b""
            head = pack("<I", len(data)) if data else rbytes(rng, rng.randint(1, 9))
            pos, size = block(kind, (0x8000 if data else 0) | 0x4000, head, data)
            k = counts["block"] = counts.get("block", -1) + 1
            common("block[%d]" % k, kind, pos, size, 7 + len(head))
            g.use("unknown blocks")
    for base, k in counts.items():
        if base != "signature":
            g.count(base, k + 1)
    if rng.random() < .8:
        if rng.random() < .6:
            flags, tail, crc = 0x4000, b"", 0x3dc4
            g.size = len(out) + 7
        else:
            flags, tail, crc = 0x4000, b"", None
            if rng.random() < .6:
                flags |= 2
                tail += rbytes(rng, 4)
            if rng.random() < .6:
                flags |= 8
                tail += rbytes(rng, 2)
            flags |= rng.choice((0, 1))
        pos, size = block(0x7b, flags, tail, b"", crc)
        common("archive_end", 0x7b, pos, size, 7 + len(tail))
        for bit, name in ((0, "has_next_vol"), (1, "has_data_crc"), (3, "has_vol_number"), (14, "is_ignorable"), (15, "has_added_size")):
            g.f("archive_end/flags/" + name, bool(flags >> bit & 1))
    g.data = bytes(out)
    if g.size and g.data.find(b"\xc4\x3d\x7b\0\x40\x07\0") != g.size - 7:
        g.size = None
    return g


ACE_OS = {0: "MS-DOS", 1: "OS/2", 2: "Win32", 3: "Unix", 4: "MAC-OS", 5: "Win NT", 6: "Primos", 7: "APPLE GS", 8: "ATARI",
          9: "VAX VMS", 10: "AMIGA", 11: "NEXT"}


@gen("archive")
def ace(rng):
    g = G("ace", "ace")
    out = bytearray()

    def block(kind, flags, body, data=b""):
        pos = len(out)
        head = pack("<BH", kind, flags) + body
        out.extend(pack("<HH", crc16(head), len(head)) + head + data)
        return pos, len(out) - pos

    flags = rng.choice((0, 0x100)) & 0 | sum(1 << b for b in (1, 9, 10, 11, 12, 13, 14, 15) if rng.random() < .4)
    os_ = rng.choice(tuple(ACE_OS))
    d = msdos_date(rng)
    vals = rng.randrange(256), rng.randrange(256), os_, rng.randrange(256)
    body = b"**ACE**" + bytes(vals) + pack("<I", msdos32(d)) + rbytes(rng, 8)
    av = word(rng, 1, 30)
    if flags & 0x1000:
        body += bytes([len(av)]) + av.encode()
    comment = rbytes(rng, rng.choice((0, 1, 50)))
    if flags & 2:
        body += pack("<H", len(comment)) + comment
    extra = rbytes(rng, rng.randint(1, 5)) if rng.random() < .2 else b""
    pos, size = block(0, flags, body + extra)
    g.at("header", pos, size)
    g.fs("header/", head_size=size - 4, block_type=0, signature="**ACE**", ver_extract=vals[0], ver_created=vals[1], host_os=os_,
         vol_num=vals[3], time=d)
    g.disp("header/host_os", ACE_OS[os_])
    for bit, name in ((0, "extend"), (1, "has_comment"), (9, "sfx"), (10, "limited_dict"), (11, "multi_volume"), (12, "has_av_string"),
                      (13, "recovery_record"), (14, "locked"), (15, "solid")):
        g.f("header/flags/" + name, bool(flags >> bit & 1))
    if flags & 0x1000:
        g.f("header/av_string", av)
    if flags & 2:
        g.f("header/comment_size", len(comment))
        if comment:
            g.f("header/compressed_comment", comment)
    if extra:
        g.at("header/extra_data", size - len(extra), len(extra))
    n = rng.randint(1, 6)
    for i in range(n):
        data = content(rng)
        name = filename(rng, i).replace("/", "\\")
        d = msdos_date(rng)
        flags = sum(1 << b for b in (1, 12, 13, 14, 15) if rng.random() < .3) | 1
        attr = rng.getrandbits(15) & ~8 if os_ in (0, 2) else rng.getrandbits(32)
        ctype, mode, par, res = rng.randrange(3), rng.randrange(5), rng.randrange(1 << 16), rng.randrange(1 << 16)
        crc, usize = rng.getrandbits(32), rng.randrange(1 << 32)
        body = pack("<IIIIIBBHHH", len(data), usize, msdos32(d), attr, crc, ctype, mode, par, res, len(name)) + name.encode()
        comment = rbytes(rng, rng.choice((0, 1, 30)))
        if flags & 2:
            body += pack("<H", len(comment)) + comment
        pos, size = block(1, flags, body, data)
        e = "file[%d]" % i
        g.at(e, pos, size)
        g.fs(e + "/", compressed_size=len(data), uncompressed_size=usize, ftime=d, file_crc32=crc, compression_type=ctype,
             compression_mode=mode, parameters=par, reserved=res, filename=name, head_size=3 + len(body))
        g.disp(e + "/compression_type", ("Store", "Lempel-Ziv 77", "ACE v2.0")[ctype])
        g.disp(e + "/compression_mode", ("fastest", "fast", "normal", "good", "best")[mode])
        if "\\x0" not in name:
            g.desc(e, "File entry: %s (%s)" % (name, fsize(len(data))))
        for bit, fname in ((1, "has_comment"), (12, "encrypted"), (13, "previous"), (14, "next"), (15, "solid")):
            g.f("%s/flags/%s" % (e, fname), bool(flags >> bit & 1))
        if os_ in (0, 2):
            attributes(g, e + "/file_attr/", attr)
        else:
            g.f(e + "/file_attr", attr)
        if flags & 2:
            g.f(e + "/comment_size", len(comment))
            if comment:
                g.f(e + "/comment_data", comment)
        if data:
            g.at(e + "/compressed_data", pos + size - len(data), len(data))
            g.f(e + "/compressed_data", data)
    g.count("file", n)
    for k in range(rng.choice((0, 0, 1))):
        data = content(rng, 1) if rng.random() < .6 else b""
        extra = rbytes(rng, rng.randint(1, 9))
        kind = rng.choice((5, 6, 200))
        if kind == 5:
            data = data or b"x"
            extra = bytes(4) + b"**ACE**" + pack("<I", len(out)) + bytes(4) + extra
        pos, size = block(kind, 1 if data else 0, (pack("<I", len(data)) if data else b"") + extra, data)
        e = "new_recovery[%d]" % k if kind == 5 else "block[%d]" % k
        g.at(e, pos, size)
        g.desc(e, "Block: %d" % kind)
        if kind == 5:
            g.f(e + "/signature", "**ACE**")
            g.f(e + "/relative_start", pos)
        if data:
            g.f(e + "/body_data", data)
            g.f(e + "/body_size", len(data))
        g.use("other blocks")
    g.data = bytes(out)
    return g


ARJ_OS = {0: "MSDOS", 1: "PRIMOS", 2: "UNIX", 3: "AMIGA", 4: "MACDOS", 5: "OS/2", 6: "APPLE GS", 7: "ATARI ST", 8: "NEXT",
          9: "VAX VMS", 10: "WIN95", 11: "WIN32"}
ARJ_TYPE = ("BINARY", "TEXT", "COMMENT", "DIRECTORY", "VOLUME", "CHAPTER")


@gen("archive")
def arj(rng):
    g = G("arj", "arj")
    out = bytearray()

    def header(path, body, name, comment, first, fields, exts, data=b""):
        pos = len(out)
        base = bytes(first) + body
        extra = rbytes(rng, rng.choice((0, 0, 4, 16)))
        first_size = 1 + len(base) + len(extra)
        raw = bytes([first_size]) + base + extra + name.encode() + b"\0" + comment.encode() + b"\0"
        out.extend(b"\x60\xea" + pack("<H", len(raw)) + raw + pack("<I", binascii.crc32(raw)))
        for ext in exts:
            out.extend(pack("<H", len(ext)) + ext + pack("<I", binascii.crc32(ext)))
        out.extend(b"\0\0")
        start = len(out)
        out.extend(data)
        g.at(path, pos, len(out) - pos)
        g.fs(path + "/", magic=b"\x60\xea", basic_header_size=len(raw), first_hdr_size=first_size, archiver_version=first[0],
             min_archiver_version=first[1], host_os=first[2], arj_flags=first[3], filename=name, comment=comment,
             crc=binascii.crc32(raw), **fields)
        g.disp(path + "/host_os", ARJ_OS[first[2]])
        if extra:
            g.at(path + "/reserved2", pos + 4 + first_size - len(extra), len(extra))
        else:
            g.absent(path + "/reserved2")
        for k, ext in enumerate(exts):
            g.f("%s/extended_header_size_%d" % (path, k), len(ext))
            g.f("%s/extended_header_crc_%d" % (path, k), binascii.crc32(ext))
        if data:
            g.at(path + "/compressed_data", start, len(data))
            g.f(path + "/compressed_data", data)

    def exts():
        return [rbytes(rng, rng.randint(1, 30)) for _ in range(rng.choice((0, 0, 0, 1, 2)))]

    def first():
        return rng.randrange(256), rng.randrange(256), rng.choice(tuple(ARJ_OS)), rng.randrange(256)

    name = word(rng) + ".arj"
    v = [rng.randrange(256), 2, rng.randrange(256), rng.getrandbits(32), rng.getrandbits(32), rng.getrandbits(32), rng.getrandbits(32),
         rng.randrange(1 << 16), rng.randrange(1 << 16), rng.randrange(256), rng.randrange(256)]
    header("header", pack("<BBBIIIIHHBB", *v), name, rng.choice(("", word(rng))), first(),
           dict(zip(("security_version", "file_type", "reserved", "date_time_created", "date_time_modified", "archive_size",
                     "security_envelope_file_position", "filespec_position", "security_envelope_data_len", "encryption_version",
                     "last_chapter"), v)), exts())
    g.disp("header/file_type", "COMMENT")
    g.desc("header", "Main header of '%s'" % name)
    n = rng.randint(0, 6)
    for i in range(n):
        data = content(rng)
        kind = rng.choice((0, 0, 1, 3, 4, 5))
        if kind in (3, 4, 5) and rng.random() < .7:
            data = b""
        name = filename(rng, i)
        e = "file_header[%d]" % i
        v = [rng.randrange(5), kind, rng.randrange(256), rng.getrandbits(32), len(data), rng.getrandbits(32), rng.getrandbits(32),
             rng.randrange(1 << 16), rng.randrange(1 << 16), rng.randrange(256), rng.randrange(256)]
        header(e, pack("<BBBIIIIHHBB", *v), name, rng.choice(("", word(rng))), first(),
               dict(zip(("method", "file_type", "reserved", "date_time_modified", "compressed_size", "original_size",
                         "original_file_crc", "filespec_position", "file_access_mode", "first_chapter", "last_chapter"), v)), exts(), data)
        g.disp(e + "/file_type", ARJ_TYPE[kind])
        g.desc(e, "File header of '%s'" % name)
    out.extend(b"\x60\xea\0\0")
    e = "file_header[%d]" % n
    g.f(e + "/basic_header_size", 0)
    g.desc(e, "Empty file header")
    g.count("file_header", n + 1)
    g.data = bytes(out)
    return g


# ------------------------------------------------------------------ 7z

def sz(n):
    """variable-length number"""
    mask, first = 0x80, 0
    for i in range(8):
        if n < 1 << 7 * (i + 1):
            return bytes([first | n >> 8 * i]) + (n & (1 << 8 * i) - 1).to_bytes(i, "little")
        first |= mask
        mask >>= 1
    return b"\xff" + n.to_bytes(8, "little")


def szlong(rng, n):
    """the number in more bytes than needed: a decoder must accept it"""
    if rng.random() < .85:
        return sz(n)
    k = rng.randint(len(sz(n)), 9) - 1
    first = (0xff << 8 - k) & 0xff
    rest = n.to_bytes(8, "little")
    return bytes([first | (n >> 8 * k if k < 7 else 0)]) + rest[:k]


def bits(flags):
    out = bytearray((len(flags) + 7) // 8)
    for i, b in enumerate(flags):
        if b:
            out[i >> 3] |= 0x80 >> (i & 7)
    return bytes(out)


SZ_METHODS = {b"\0": "Copy", b"\3\1\1": "7z-LZMA", b"\x21": "LZMA2", b"\4\1\x08": "Zip-Deflate", b"\4\2\2": "BZip2", b"\3\4\1": "7z-PPMD"}


class Sz:
    """a header of a 7z archive, written with the facts about it"""

    def __init__(self, rng, g, base):
        self.rng, self.g, self.base = rng, g, base
        self.out = bytearray()

    def pos(self):
        return self.base + len(self.out)

    def byte(self, path, v):
        self.g.f(path, v)
        self.out.append(v)

    def num(self, path, n):
        raw = szlong(self.rng, n)
        self.g.f(path, n)
        self.g.at(path, self.pos(), len(raw))
        self.out += raw

    def raw(self, data):
        self.out += data

    def digests(self, path, total):
        rng = self.rng
        defined = [True] * total if rng.random() < .5 else [rng.random() < .6 for _ in range(total)]
        self.byte(path + "/id", 0x0a)
        if all(defined):
            self.byte(path + "/defined/all_defined", 1)
        else:
            self.byte(path + "/defined/all_defined", 0)
            self.raw(bits(defined))
        self.g.f(path + "/defined", [i for i, b in enumerate(defined) if b])
        for k in range(sum(defined)):
            v = rng.getrandbits(32)
            self.g.f("%s/digest[%d]" % (path, k), v)
            self.g.at("%s/digest[%d]" % (path, k), self.pos(), 4)
            self.raw(pack("<I", v))
        self.g.count(path + "/digest", sum(defined))
        return defined

    def streams(self, path, uid, packs, pack_pos, folders, substreams):
        """packs: sizes of the packed streams, folders: number of streams per folder"""
        rng, g = self.rng, self.g
        self.byte(path + "/id", uid)
        p = path + "/pack_info"
        self.byte(p + "/id", 6)
        self.num(p + "/pack_pos", pack_pos)
        self.num(p + "/num_pack_streams", len(packs))
        self.byte(p + "/size_marker", 9)
        for i, n in enumerate(packs):
            self.num("%s/pack_size[%d]" % (p, i), n)
        g.count(p + "/pack_size", len(packs))
        if rng.random() < .3:
            self.digests(p + "/digests", len(packs))
        self.byte(p + "/end_marker", 0)
        u = path + "/unpack_info"
        self.byte(u + "/id", 7)
        self.byte(u + "/folder_marker", 0x0b)
        self.num(u + "/num_folders", len(folders))
        self.byte(u + "/is_external", 0)
        outs = []
        for i, shape in enumerate(folders):
            f = "%s/folder[%d]" % (u, i)
            pos = self.pos()
            self.num(f + "/num_coders", shape["coders"])
            ins = out = 0
            for k in range(shape["coders"]):
                c = "%s/coders[%d]/coder[0]" % (f, k)
                method = shape.get("method") or rng.choice(tuple(SZ_METHODS))
                attribs = shape["props"] if "props" in shape else rbytes(rng, rng.choice((0, 0, 1, 5, 13)))
                cin = shape["ins"][k] if "ins" in shape else 1
                simple = cin == 1 and rng.random() < .8
                self.g.fs(c + "/", id_size=len(method), is_not_simple=not simple, has_attribs=bool(attribs), is_not_last_method=False)
                self.raw(bytes([len(method) | (0 if simple else 0x10) | (0x20 if attribs else 0)]))
                g.f(c + "/id", method)
                g.disp(c + "/id", SZ_METHODS[method])
                self.raw(method)
                if not simple:
                    self.num(c + "/num_stream_in", cin)
                    self.num(c + "/num_stream_out", 1)
                if attribs:
                    self.num(c + "/properties_size", len(attribs))
                    g.f(c + "/properties", attribs)
                    self.raw(attribs)
                ins += cin
                out += 1
            for k in range(out - 1):
                b = "%s/bind_pair[%d]" % (f, k)
                self.num(b + "/in_index", k + 1)
                self.num(b + "/out_index", k)
            if ins - out + 1 > 1:
                for k in range(ins - out + 1):
                    self.num("%s/pack_stream[%d]" % (f, k), k)
            g.at(f, pos, self.pos() - pos)
            outs.append(out)
        self.byte(u + "/unpacksize_marker", 0x0c)
        for i, out in enumerate(outs):
            for k in range(out):
                self.num("%s/unpack_size[%d][%d]" % (u, i, k), folders[i].get("size") or rng.getrandbits(rng.randint(1, 63)))
        defined = [False] * len(folders)
        if rng.random() < .5:
            defined = self.digests(u + "/digests", len(folders))
            g.use("digests of folders")
        self.byte(u + "/end_marker", 0)
        if substreams:
            s = path + "/substreams_info"
            self.byte(s + "/id", 8)
            nums = [1] * len(folders)
            if rng.random() < .7:
                self.byte(s + "/num_unpackstream_marker", 0x0d)
                for i in range(len(folders)):
                    nums[i] = rng.choice((0, 1, 1, 2, 3, 200))
                    self.num("%s/num_unpackstreams[%d]" % (s, i), nums[i])
            if any(n > 1 for n in nums) or rng.random() < .3:
                self.byte(s + "/size_marker", 9)
                for i, n in enumerate(nums):
                    for k in range(n - 1):
                        self.num("%s/unpack_size[%d][%d]" % (s, i, k), rng.getrandbits(rng.randint(1, 40)))
            todo = sum(0 if n == 1 and defined[i] else n for i, n in enumerate(nums))
            if todo and rng.random() < .8:
                self.digests(s + "/digests", todo)
            self.byte(s + "/end_marker", 0)
            g.use("sub-streams")
        self.byte(path + "/end", 0)

    def files(self, path, n):
        rng, g = self.rng, self.g
        self.byte(path + "/id", 5)
        self.num(path + "/num_files", n)
        props = [p for p in ("names", "empty", "created", "accessed", "modified", "attributes", "dummy", "unknown") if rng.random() < .6]
        rng.shuffle(props)
        for p in props:
            if p == "names":
                names = [filename(rng, i) + rng.choice(("", "", "\xe9\u20ac")) for i in range(n)]
                q = path + "/filenames"
                body = b"\0" + b"".join(x.encode("utf-16-le") + b"\0\0" for x in names)
                self.byte(q + "/id", 0x11)
                self.num(q + "/size", len(body))
                self.raw(body)
                for i, x in enumerate(names):
                    g.f("%s/name[%d]" % (q, i), x)
            elif p == "empty":
                empty = [rng.random() < .4 for _ in range(n)]
                q = path + "/empty_streams"
                self.byte(q + "/id", 0x0e)
                self.num(q + "/size", (n + 7) // 8)
                self.raw(bits(empty))
                which = [i for i, b in enumerate(empty) if b]
                g.f(q, which)
                for code, name in ((0x0f, "empty_files"), (0x10, "anti_files")):
                    if which and rng.random() < .6:
                        q = "%s/%s" % (path, name)
                        flags = [rng.random() < .5 for _ in which]
                        self.byte(q + "/id", code)
                        self.num(q + "/size", (len(which) + 7) // 8)
                        self.raw(bits(flags))
                        g.f(q, [i for i, b in zip(which, flags) if b])
                        g.use("empty files")
            elif p in ("created", "accessed", "modified", "attributes"):
                code, name = {"created": (0x12, "creation_time"), "accessed": (0x13, "access_time"), "modified": (0x14, "modified_time"),
                              "attributes": (0x15, "attributes")}[p]
                q = "%s/%s" % (path, name)
                flags = [True] * n if rng.random() < .5 else [rng.random() < .6 for _ in range(n)]
                body = b"\1" if all(flags) else b"\0" + bits(flags)
                body += b"\0"
                values = []
                for i, b in enumerate(flags):
                    if b and p == "attributes":
                        v = rng.getrandbits(15) & ~8
                        body += pack("<I", v)
                        values.append((i, v))
                    elif b:
                        d = datetime.datetime(rng.randint(1601, 2400), rng.randint(1, 12), rng.randint(1, 28), rng.randrange(24),
                                              rng.randrange(60), rng.randrange(60), rng.randrange(1000000))
                        body += pack("<Q", (d - datetime.datetime(1601, 1, 1)) // datetime.timedelta(microseconds=1) * 10)
                        values.append((i, d))
                self.byte(q + "/id", code)
                self.num(q + "/size", len(body))
                self.raw(body)
                g.f(q + "/defined", [i for i, b in enumerate(flags) if b])
                for i, v in values:
                    if p == "attributes":
                        attributes(g, "%s/attributes[%d]/" % (q, i), v)
                    else:
                        g.f("%s/timestamp[%d]" % (q, i), v)
            else:
                k, code = ("dummy[0]", 0x19) if p == "dummy" else ("prop[0]", rng.choice((0x16, 0x18)))
                q = "%s/%s" % (path, k)
                body = rbytes(rng, rng.choice((0, 1, 5, 200)))
                self.byte(q + "/id", code)
                self.num(q + "/size", len(body))
                self.raw(body)
                if body:
                    g.f(q + "/data", body)
        self.byte(path + "/end_marker", 0)


@gen("archive", "7z")
def sevenzip(rng):
    g = G("7z", "7zip")
    packs = [len(content(rng, 1)) for _ in range(rng.randint(1, 3))]
    body = rbytes(rng, sum(packs))
    encoded = rng.random() < .35
    if encoded:
        info = rbytes(rng, rng.randint(1, 60))
        tail = rbytes(rng, rng.choice((0, 0, 5)))
        h = Sz(rng, g, 32 + len(body) + len(info) + len(tail))
        copy = rng.random() < .5
        if copy:
            inner = G("x", None)
            ih = Sz(rng, inner, 0)
            ih.byte("header/id", 1)
            ih.files("header/files_info", rng.randint(1, 9))
            ih.byte("header/end", 0)
            info = bytes(ih.out)
            h.base = 32 + len(body) + len(info) + len(tail)

            def sub(parser, inner=inner):
                from hachoir.parser import guessParser
                from vlib import facts
                tree = guessParser(parser["body_data/compressed_file_info"].getSubIStream())
                if tree is None:
                    return [("stored header", "no parser for the stored header")]
                return [("stored header:" + k, m) for k, m in facts.check_tree(inner, tree)]
            g.checks.append(sub)
        h.streams("next_hdr/encoded_hdr", 0x17, [len(info)], len(body),
                  [dict(coders=1, size=len(info), **({"method": b"\0", "props": b""} if copy else {"method": b"\3\1\1"}))], False)
        g.at("body_data/compressed_file_info", 32 + len(body), len(info))
        if tail:
            g.at("body_data/unknown_data", 32 + len(body) + len(info), len(tail))
        if body:
            g.at("body_data/compressed_data", 32, len(body))
        if copy:
            g.f("body_data/compressed_file_info", info)
            g.part("body_data/compressed_file_info", info)
            g.use("stored header")
        body += info + tail
        g.use("packed header")
    else:
        h = Sz(rng, g, 32 + len(body))
        h.byte("next_hdr/header/id", 1)
        if rng.random() < .2:
            p = "next_hdr/header/props"
            h.byte(p + "/id", 2)
            for k in range(rng.randint(0, 2)):
                data = rbytes(rng, rng.randint(0, 200))
                h.byte("%s/prop[%d]/id" % (p, k), rng.choice((0x16, 0x19)))
                h.num("%s/prop[%d]/size" % (p, k), len(data))
                h.raw(data)
            h.byte(p + "/end_marker", 0)
        shapes = []
        for _ in range(rng.randint(1, 4)):
            coders = rng.choice((1, 1, 1, 2, 3))
            s = dict(coders=coders)
            if coders > 1 and rng.random() < .4:
                s["ins"] = [4] + [1] * (coders - 1)
                g.use("coders of several inputs")
            shapes.append(s)
        h.streams("next_hdr/header/main_streams", 4, packs, 0, shapes, rng.random() < .7)
        if rng.random() < .9:
            h.files("next_hdr/header/files_info", rng.choice((1, 2, 7, 8, 9, 16, 17)))
        h.byte("next_hdr/header/end", 0)
        g.at("body_data/compressed_data", 32, len(body))
    head = bytes(h.out)
    start = pack("<QQI", len(body), len(head), binascii.crc32(head))
    ver = rng.randrange(256), rng.randrange(256)
    g.data = b"7z\xbc\xaf\x27\x1c" + bytes(ver) + pack("<I", binascii.crc32(start)) + start + body + head
    g.size = len(g.data)
    s = "signature/"
    g.fs(s, signature=b"7z\xbc\xaf\x27\x1c", major_ver=ver[0], minor_ver=ver[1], start_hdr_crc=binascii.crc32(start))
    g.fs(s + "start_hdr/", next_hdr_offset=len(body), next_hdr_size=len(head), next_hdr_crc=binascii.crc32(head))
    g.at("body_data", 32, len(body))
    g.at("next_hdr", 32 + len(body), len(head))
    return g


# -------------------------------------------------------- other archives

@gen("archive")
def mozilla_ar(rng):
    g = G("mozilla_ar", "mozilla_ar")
    out = bytearray(b"MAR1" + bytes(4))
    n = rng.randint(1, 6)
    files = []
    for i in range(n):
        data = content(rng, 1)
        out += rbytes(rng, rng.choice((0, 0, 3))) if i == 0 else b""
        files.append((len(out), data, rng.choice((0o644, 0o755, 0o600, 0o4755)), filename(rng, i)))
        out += data
    index = len(out)
    order = list(files)
    if rng.random() < .3:
        rng.shuffle(order)
        g.use("index in another order")
    raw = b"".join(pack(">III", pos, len(data), mode) + name.encode() + b"\0" for pos, data, mode, name in order)
    out[4:8] = pack(">I", index)
    out += pack(">I", len(raw)) + raw
    g.data = bytes(out)
    g.fs("", magic="MAR1", index_offset=index, index_size=len(raw))
    g.at("index_size", index, 4)
    pos = index + 4
    for i, (start, data, mode, name) in enumerate(order):
        e = "index_entry[%d]" % i
        g.at(e, pos, 13 + len(name))
        pos += 13 + len(name)
        g.fs(e + "/", offset=start, length=len(data), flags=mode, name=name)
        g.at("file[%d]" % i, start, len(data))
        g.f("file[%d]" % i, data)
        text = "".join(c if mode >> 8 - k & 1 else "-" for k, c in enumerate("rwxrwxrwx"))
        if not mode & 0o4000:
            g.disp(e + "/flags", "-%s (%o)" % (text, mode))
    g.count("index_entry", n)
    g.count("file", n)
    return g


@gen("archive")
def prs_pak(rng):
    g = G("prs_pak", "prs_pak")
    out = bytearray(b"PACK")
    n = rng.randint(1, 6)
    for i in range(n):
        name, data = filename(rng, i), content(rng, 1)
        e = "file[%d]" % i
        g.at(e, len(out), 60 + len(data))
        g.fs(e + "/", filename=name, size=len(data))
        g.desc(e, name)
        g.at(e + "/data", len(out) + 60, len(data))
        g.part(e + "/data", data)
        out += name.encode().ljust(56, b"\0") + pack("<I", len(data)) + data
    g.count("file", n)
    g.data = bytes(out)
    return g


@gen("archive")
def bom_store(rng):
    g = G("bom_store", "bom_store")
    n = rng.randint(0, 8)
    out = bytearray(512)
    entries = [(0, 0)]
    blobs = []
    for i in range(n):
        data = content(rng, 1)
        out += bytes(rng.choice((0, 0, 8)))
        entries.append((len(out), len(data)))
        blobs.append(data)
        out += data
    header = (len(out), rng.randint(1, 60))
    hdata = rbytes(rng, header[1])
    out += hdata
    blank = rng.choice((0, 1, 10))
    trail = []
    for _ in range(rng.choice((0, 0, 1))):
        size = rng.randint(1, 30)
        trail.append((len(out), size))
        out += rbytes(rng, size)
    table = pack(">I", n + 1 + blank) + b"".join(pack(">II", *e) for e in entries) + bytes(8 * blank)
    table += pack(">I", len(trail)) + b"".join(pack(">II", *e) for e in trail)
    tpos = len(out)
    out += table
    version = rng.choice((1, 1, 7))
    out[:32] = b"BOMStore" + pack(">IIIIII", version, n, tpos, len(table), *header)
    g.data = bytes(out)
    g.fs("", magic=b"BOMStore", version=version, num_objects=n, trailer_offset=tpos, trailer_size=len(table), header_offset=header[0],
         header_size=header[1], header=hdata)
    g.at("header", *header)
    g.at("trailer", tpos, len(table))
    g.f("trailer/num_spaces", n + 1 + blank)
    for i, (pos, size) in enumerate(entries):
        g.fs("trailer/entry[%d]/" % i, offset=pos, size=size)
        g.desc("trailer/entry[%d]" % i, "Object at offset %d, size %d" % (pos, size))
        if i:
            g.at("object[%d]" % i, pos, size)
            g.f("object[%d]" % i, blobs[i - 1])
    for i, e in enumerate(trail):
        g.at("trail[%d]" % i, *e)
    g.f("trailer/num_trail", len(trail))
    g.count("trailer/entry", n + 1)
    return g


# ---- Git pack ----

def git_size(n, kind=None):
    """variable-length size, preceded by the type of an object"""
    if kind is None:
        out = [n & 127]
        n >>= 7
    else:
        out = [kind << 4 | n & 15]
        n >>= 4
    while n:
        out[-1] |= 128
        out.append(n & 127)
        n >>= 7
    return bytes(out)


def git_distance(n):
    out = [n & 127]
    n >>= 7
    while n:
        n -= 1
        out.append(128 | n & 127)
        n >>= 7
    return bytes(reversed(out))


def git_delta(rng, s):
    """instructions of a delta, facts in s"""
    source, target = rng.choice((0, 100, 200, 70000)), rng.choice((1, 127, 128, 5000, 1 << 21))
    out = bytearray(git_size(source) + git_size(target))
    s.f("source_length", source)
    s.f("target_length", target)
    n = rng.randint(1, 6)
    for i in range(n):
        path = "instruction[%d]" % i
        s.f(path + "/copy_or_add", rng.random() < .5)
        at = len(out)
        if s.facts[-1][2]:
            offset = rng.choice((0, 1, 255, 256, 0x10203, rng.getrandbits(32)))
            size = rng.choice((1, 255, 256, 0x10000, 0x10001, rng.randint(1, 0xffffff)))
            code, tail = 0x80, b""
            for k in range(4):
                if offset >> 8 * k & 255:
                    code |= 1 << k
                    tail += bytes((offset >> 8 * k & 255,))
            for k in range(3):
                if size != 0x10000 and size >> 8 * k & 255:
                    code |= 16 << k
                    tail += bytes((size >> 8 * k & 255,))
            out += bytes((code,)) + tail
            s.disp(path + "/copy_or_add", "COPY")
            s.desc(path, "copy %d B from offset %d" % (size, offset))
        else:
            data = rbytes(rng, rng.randint(1, 127))
            out += bytes((len(data),)) + data
            s.disp(path + "/copy_or_add", "ADD")
            s.f(path + "/data", data)
            s.desc(path, "add %d B" % len(data))
        s.at(path, at, len(out) - at)
    s.count("instruction", n)
    return bytes(out)


def git_sub(path, s):
    def check(parser):
        from hachoir.parser import guessParser
        from vlib.facts import check_tree
        sub = guessParser(parser[path].getSubIStream())
        if sub is None:
            return [("sub", "%s: no parser" % path)]
        return check_tree(s, sub)
    return check


@gen("archive")
def git_pack(rng):
    g = G("git_pack", "git_pack")
    n = rng.randint(1, 6)
    version = rng.choice((2, 2, 3))
    out = bytearray(b"PACK" + pack(">II", version, n))
    g.fs("", magic="PACK", version=version, num_objects=n)
    starts = []
    for i in range(n):
        path = "object[%d]" % i
        kind = rng.choice((1, 2, 3, 4, 3, 7) + ((6, 6) if starts else ()))
        start = len(out)
        s = G("git_pack_obj", "")
        name = ("OBJ_COMMIT", "OBJ_TREE", "OBJ_BLOB", "OBJ_TAG", "", "OBJ_OFS_DELTA", "OBJ_REF_DELTA")[kind - 1]
        if kind == 1:
            tree = "%040x" % rng.getrandbits(160)
            rest = "author %s <a@b> 1234567890 +0000\n\n%s\n" % (word(rng), word(rng))
            body = ("tree %s\n%s" % (tree, rest)).encode()
            s.fs("", keyword_tree="tree ", tree_id=tree, remaining_text=rest)
            s.f("newline[0]", "\n")
        elif kind in (6, 7):
            body = git_delta(rng, s)
            g.use("deltas")
        else:
            body = content(rng)
        out += git_size(len(body), kind)
        if kind == 6:
            distance = start - rng.choice(starts) if rng.random() < .7 else rng.choice((127, 128, 16511, 16512, 1 << 22))
            g.at(path + "/offset", len(out), len(git_distance(distance)))
            g.f(path + "/offset", distance)
            out += git_distance(distance)
        elif kind == 7:
            base = rbytes(rng, 20)
            g.f(path + "/base_object", base)
            out += base
        packed = zlib.compress(body, rng.choice((0, 1, 6, 9)))
        g.f(path + "/type_and_size", len(body))
        g.f(path + "/type_and_size/typ", kind)
        g.disp(path + "/type_and_size/typ", name)
        g.desc(path, "type=%s, decompressed size=%d" % (name, len(body)))
        g.at(path + "/compressed_data", len(out), len(packed))
        g.part(path + "/compressed_data", body)
        if s.facts:
            g.checks.append(git_sub(path + "/compressed_data", s))
        out += packed
        g.at(path, start, len(out) - start)
        starts.append(start)
    g.count("object", n)
    digest = hashlib.sha1(out).digest()
    g.f("checksum", int.from_bytes(digest, "big"))
    g.data = bytes(out) + digest
    return g
