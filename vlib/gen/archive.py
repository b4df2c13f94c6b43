"""Archives: written with the writers of the Python library where possible."""
import bz2
import datetime
import gzip as pygzip
import io
import struct
import tarfile
import zipfile
import zlib as pyzlib

from hachoir.stream import StringInputStream
from vlib.gen import G, Texts, gen, pack, rbytes, word
from vlib.gen.image import png_bytes


PAYLOADS = []       # contents to store first (set by checks)


def content(rng, lo=0):
    """contents of a file"""
    if PAYLOADS and len(PAYLOADS[0]) >= lo and rng.random() < .6:
        return PAYLOADS.pop(0)
    r = rng.random()
    if r < .15:
        return b"x" * lo
    if r < .4:
        return rbytes(rng, rng.randint(max(lo, 1), 600))
    if r < .6:
        return b"".join(word(rng).encode() + b" " for _ in range(rng.randint(1, 200)))
    if r < .7:
        return bytes([rng.randrange(256)]) * rng.randint(1, 70000)
    if r < .8:
        return png_bytes(rng)
    if r < .9:
        return rbytes(rng, rng.choice((1, 2, 510, 511, 512, 513, 1024, 4095, 4096, 4097, 32768)))
    return rbytes(rng, rng.randint(5000, 40000))


def filename(rng, i):
    return "%s%s%d.%s" % (rng.choice(("", "", "dir/", "a/b/")), word(rng, 1, 10), i,
                          rng.choice(("txt", "bin", "c", "dat", "html")))


def msdos_date(rng):
    return datetime.datetime(rng.randint(1980, 2029), rng.randint(1, 12), rng.randint(1, 28), rng.randrange(24),
                             rng.randrange(60), rng.randrange(30) * 2)


def msdos32(d):
    return (d.year - 1980) << 25 | d.month << 21 | d.day << 16 | d.hour << 11 | d.minute << 5 | d.second // 2


class NoSeek(io.RawIOBase):
    """output which cannot be sought: ZIP archives get data descriptors"""

    def __init__(self):
        self.buf = bytearray()

    def writable(self):
        return True

    def write(self, b):
        self.buf += b
        return len(b)


def zip_name(method):
    return {0: "no compression", 8: "Deflate", 12: "BZIP2 Compression", 14: "LZMA (EFS)"}[method]


@gen("archive")
def zip(rng, depth=0):
    g = G("zip", "zip")
    stream = rng.random() < .3
    out = NoSeek() if stream else io.BytesIO()
    n = rng.randint(1, 6)
    if stream:
        g.use("data descriptors")
    files = []
    office = rng.random() < .15
    with zipfile.ZipFile(out, "w") as z:
        for i in range(n):
            method = rng.choice((0, 8, 8, 8, 12))
            name = filename(rng, i)
            if rng.random() < .2:
                name = "\xe9\u20ac%s" % name
            data = content(rng)
            if depth == 0 and rng.random() < .1:
                data = zip(rng, 1).data
                g.use("ZIP in a ZIP")
            if office and i == 0:
                name, data, method = "mimetype", b"application/vnd.oasis.opendocument.text", 0
                g.use("mimetype")
            d = msdos_date(rng)
            info = zipfile.ZipInfo(name, (d.year, d.month, d.day, d.hour, d.minute, d.second))
            info.compress_type = method
            info.external_attr = rng.randrange(1 << 32)
            if rng.random() < .3:
                info.extra = pack("<HH", 0x7855, 4) + rbytes(rng, 4)
            if rng.random() < .3:
                info.comment = word(rng).encode()
            with z.open(info, "w") as fp:
                fp.write(data)
            files.append((info, data, d))
        comment = b""
        if rng.random() < .4:
            comment = word(rng, 1, 30).encode()
            if rng.random() < .15:
                comment += b"PK\5\6" + word(rng, 1, 30).encode()
            z.comment = comment
    raw = bytes(out.buf) if stream else out.getvalue()
    g.data, g.size = raw, len(raw)
    g.count("file", n)
    g.count("central_directory", n)
    for i, (info, data, d) in enumerate(files):
        e = "file[%d]/" % i
        g.f(e + "filename", info.filename)
        g.f(e + "compression", info.compress_type)
        g.f(e + "last_mod", d)
        g.f(e + "flags/uses_unicode", any(ord(c) > 127 for c in info.filename))
        g.f(e + "flags/has_descriptor", stream)
        # the signature "PK\3\4" is a field of its own
        start = info.header_offset
        g.at(e + "version_needed", start + 4)
        if stream:
            g.f(e + "data_desc/file_crc32", info.CRC)
            g.f(e + "data_desc/file_compressed_size", info.compress_size)
            g.f(e + "data_desc/file_uncompressed_size", info.file_size)
        else:
            g.f(e + "crc32", info.CRC)
            g.f(e + "compressed_size", info.compress_size)
            g.f(e + "uncompressed_size", info.file_size)
        if info.compress_size:
            dname = e + ("data" if info.compress_type == 0 else "compressed_data")
            at = start + 30 + struct.unpack_from("<H", raw, start + 26)[0] + struct.unpack_from("<H", raw, start + 28)[0]
            g.at(dname, at, info.compress_size)
            if info.compress_type in (0, 8):
                g.part(dname, data)
        c = "central_directory[%d]/" % i
        g.f(c + "filename", info.filename)
        g.f(c + "crc32", info.CRC)
        g.f(c + "compressed_size", info.compress_size)
        g.f(c + "uncompressed_size", info.file_size)
        g.f(c + "offset_header", start)
        g.f(c + "external_attr", info.external_attr)
        if info.comment:
            g.f(c + "comment", info.comment.decode())
        if i < 9:
            g.m("filename", info.filename, group="file[%d]" % i)
            g.m("file_size", info.file_size, group="file[%d]" % i)
            g.m("creation_date", d, group="file[%d]" % i)
            if info.compress_size:
                g.m("compr_size", info.compress_size, group="file[%d]" % i)
    g.f("end_central_directory/total_number_disk", n)
    g.f("end_central_directory/total_number_disk2", n)
    g.f("end_central_directory/comment", comment.decode("latin1"))
    cd = raw.rindex(b"PK\5\6", 0, len(raw) - len(comment))
    g.f("end_central_directory/size", struct.unpack_from("<I", raw, cd + 12)[0])
    g.f("end_central_directory/offset", struct.unpack_from("<I", raw, cd + 16)[0])
    g.at("end_central_directory/number_disk", cd + 4)
    return g


TAR_TYPES = {tarfile.REGTYPE: "Normal disk file", tarfile.LNKTYPE: "Link to previously dumped file",
             tarfile.SYMTYPE: "Symbolic link", tarfile.CHRTYPE: "Character special file",
             tarfile.BLKTYPE: "Block special file", tarfile.DIRTYPE: "Directory", tarfile.FIFOTYPE: "FIFO special file"}


@gen("archive")
def tar(rng):
    g = G("tar", "tar")
    out = io.BytesIO()
    fmt = tarfile.GNU_FORMAT
    n = rng.randint(1, 6)
    files = []
    with tarfile.open(fileobj=out, mode="w", format=fmt, encoding="latin1") as t:
        for i in range(n):
            info = tarfile.TarInfo(filename(rng, i)[:99] if rng.random() < .9 else ("d" * 80 + word(rng, 15, 15) + "%d" % i)[:100])
            info.type = tarfile.REGTYPE if rng.random() < .7 else rng.choice(list(TAR_TYPES))
            data = content(rng) if info.type == tarfile.REGTYPE else b""
            if info.type == tarfile.REGTYPE and rng.random() < .1:
                data = bytes(rng.randrange(1, 4) * 512)
            info.size = len(data)
            info.mode = rng.randrange(0o10000)
            info.uid = rng.choice((0, 1, 1000, rng.randrange(1 << 20)))
            info.gid = rng.choice((0, 1, 1000, rng.randrange(1 << 20)))
            info.mtime = rng.randrange(1, 1890000000)
            info.uname, info.gname = word(rng, 1, 31), word(rng, 1, 31)
            if info.type in (tarfile.LNKTYPE, tarfile.SYMTYPE):
                info.linkname = word(rng, 1, 99)
            if info.type in (tarfile.CHRTYPE, tarfile.BLKTYPE):
                info.devmajor, info.devminor = rng.randrange(1000), rng.randrange(1000)
            start = t.offset
            t.addfile(info, io.BytesIO(data))
            files.append((start, info, data))
            end = t.offset
    g.data = out.getvalue()
    g.size = (end + 512, len(g.data))       # one empty record or more
    g.count("file", n)
    g.at("terminator", end)
    for i, (start, info, data) in enumerate(files):
        e = "file[%d]/" % i
        g.at("file[%d]" % i, start, 512 + -(-len(data) // 512) * 512)
        g.f(e + "name", info.name + ("/" if info.type == tarfile.DIRTYPE else ""))
        g.f(e + "mode", "%07o" % info.mode)
        g.f(e + "uid", "%07o" % info.uid)
        g.f(e + "gid", "%07o" % info.gid)
        g.f(e + "size", "%011o" % len(data))
        g.f(e + "mtime", "%011o" % info.mtime)
        g.f(e + "uname", info.uname)
        g.f(e + "gname", info.gname)
        g.f(e + "lname", info.linkname)
        g.disp(e + "type", TAR_TYPES[info.type])
        if data:
            g.at(e + "content", start + 512, len(data))
            g.part(e + "content", data)
        else:
            g.absent(e + "content")
        grp = "file[%d]" % i
        g.m("filename", info.name + ("/" if info.type == tarfile.DIRTYPE else ""), group=grp)
        g.m("file_size", len(data), group=grp)
        g.m("last_modification", datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=info.mtime), group=grp)
        g.m("file_type", TAR_TYPES[info.type], group=grp)
    return g


@gen("archive")
def gzip(rng):
    g = G("gzip", "gzip")
    data = content(rng, 1)
    flags = 0
    name = comment = None
    opt = b""
    if rng.random() < .2:
        flags |= 1
    if rng.random() < .3:
        flags |= 4
        x = rbytes(rng, rng.randint(1, 20))
        opt += pack("<H", len(x)) + x
        g.f("extra_length", len(x))
        g.f("extra", x)
    if rng.random() < .6:
        flags |= 8
        name = rng.choice(("", "\xe9", "\xdf")) + word(rng) + ".txt"
        opt += name.encode("latin1") + b"\0"
        g.f("filename", name)
        g.m("filename", name)
    if rng.random() < .3:
        flags |= 16
        comment = word(rng)
        opt += comment.encode() + b"\0"
        g.f("comment", comment)
        g.m("comment", comment)
    mtime = rng.choice((0, rng.randrange(1, 1 << 31)))
    xfl = rng.choice((0, 2, 4))
    os = rng.randrange(14)
    head = b"\x1f\x8b\x08" + bytes([flags]) + pack("<I", mtime) + bytes([xfl, os]) + opt
    if rng.random() < .2:
        head = head[:3] + bytes([flags | 2]) + head[4:]
        flags |= 2
        crc = pyzlib.crc32(head) & 0xffff
        head += pack("<H", crc)
        g.f("hdr_crc16", crc)
    c = pyzlib.compressobj(rng.randint(0, 9), pyzlib.DEFLATED, -15)
    body = c.compress(data) + c.flush()
    tail = pack("<II", pyzlib.crc32(data), len(data))
    g.data = head + body + tail
    g.fs("", compression=8, is_text=bool(flags & 1), has_crc16=bool(flags & 2), has_extra=bool(flags & 4),
         has_filename=bool(flags & 8), has_comment=bool(flags & 16), slowest=bool(xfl & 2), fastest=bool(xfl & 4),
         os=os, crc32=pyzlib.crc32(data), size=len(data))
    g.f("mtime", datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=mtime))
    g.at("file", len(head), len(body))
    g.part("file", data)
    g.m("file_size", len(data))
    g.m("compr_size", len(body))
    return g


@gen("archive")
def bzip2(rng):
    g = G("bzip2", "bzip2")
    data = content(rng, 1)
    if len(data) > 20000:
        data = data[:20000]
    level = rng.randint(1, 9)
    g.data = bz2.compress(data, level)
    g.f("id", "BZh")
    g.f("blocksize", str(level))
    g.at("file", 4, len(g.data) - 4)
    g.f("file/block[0]/blockheader", 0x314159265359)
    crc, = struct.unpack_from(">I", g.data, 10)
    g.f("file/block[0]/crc32", crc)
    g.f("file/block[0]/randomized", False)
    g.f("file/stream_end", 0x177245385090)
    g.f("file/crc32", crc)      # one block
    g.part("file", data)
    g.m("compr_size", len(g.data) - 4)
    name = filename(rng, 0).split("/")[-1] or "a"

    def sub_name(p):
        p = type(p)(StringInputStream(g.data, tags=[("id", "bzip2"), None, ("filename", name + ".bz2")]))
        tags = p["file"].getSubIStream().tags
        return [] if ("filename", name) in tags else [("name", "the name %r isn't in the tags %r" % (name, tags))]
    g.checks.append(sub_name)
    return g


@gen("archive")
def zlib(rng):
    g = G("zlib", "zlib")
    data = content(rng, 1)[:3000]
    level = rng.randint(0, 9)
    strategy = rng.choice((pyzlib.Z_DEFAULT_STRATEGY, pyzlib.Z_FIXED, pyzlib.Z_HUFFMAN_ONLY))
    c = pyzlib.compressobj(level, pyzlib.DEFLATED, 15, 8, strategy)
    k = rng.randrange(len(data) + 1)
    body = c.compress(data[:k])
    if rng.random() < .4:
        body += c.flush(pyzlib.Z_FULL_FLUSH)
    g.data = body + c.compress(data[k:]) + c.flush()
    g.fs("", compression_method=8, compression_info=7, flag_dictionary_present=False,
         flag_compression_level=g.data[1] >> 6)
    g.at("data", 2, len(g.data) - 6)
    g.inflated = ("data", data)
    return g


@gen("archive")
def ar(rng):
    g = G("ar", "unix_archive")
    out = b"!<arch>\n"
    n = rng.randint(1, 6)
    pads = 0
    g.f("id", "!<arch>\n")
    for i in range(n):
        name = word(rng, 1, 14) + rng.choice(("/", ""))
        data = content(rng)
        head = ("%-16s%-12d%-6d%-6d%-8o%-10d`\n" % (name, rng.randrange(1 << 31), rng.randrange(9999),
                                                    rng.randrange(9999), rng.randrange(1 << 16), len(data))).encode()
        e = "file[%d]" % i
        g.at(e, len(out), len(head) + len(data))
        g.f(e + "/header", head[:-1].decode())
        if data:
            g.at(e + "/content", len(out) + 60, len(data))
            g.f(e + "/content", data) if len(data) < 60 else None
        out += head + data
        if len(out) % 2:
            out += b"\n"
            pads += 1
    g.count("file", n)
    g.count("empty_line", pads)
    g.data = out
    return g


def cab_block(data, method, prev):
    if method == 0:
        return data
    c = pyzlib.compressobj(9, pyzlib.DEFLATED, -15, 8, pyzlib.Z_DEFAULT_STRATEGY, *([prev] if prev else []))
    return b"CK" + c.compress(data) + c.flush()


@gen("archive")
def cab(rng):
    g = G("cab", "cab")
    nfold = rng.randint(1, 3)
    reserved = rng.random() < .3
    rh, rf, rd = (rng.choice((0, 4)), rng.choice((0, 3)), rng.choice((0, 2))) if reserved else (0, 0, 0)
    files = []
    folders = []
    for k in range(nfold):
        method = rng.choice((0, 1))
        data = b""
        for _ in range(rng.randint(1, 4)):
            body = content(rng, 1)[:50000]
            if rng.random() < .05:
                # several blocks, which refer to the previous one
                body = (body[:5000] + rng.randbytes(3000)) * 8
            files.append([filename(rng, len(files)).replace("/", "\\"), len(data), k, body, msdos_date(rng),
                          rng.choice((0, 1, 2, 4, 0x20, 0x40, 0x21, 0x27, 0x67)), rng.random() < .2])
            data += body
        blocks = []
        prev = b""
        for p in range(0, len(data), 32768):
            chunk = data[p:p + 32768]
            blocks.append((cab_block(chunk, method, prev), len(chunk)))
            prev = chunk
        folders.append((method, data, blocks))
    rng.shuffle(files) if rng.random() < .3 else None
    head_size = 36 + (4 + rh if reserved else 0)
    ftab = b""
    off_file = head_size + nfold * (8 + rf)
    for i, (name, off, k, body, d, attr, utf) in enumerate(files):
        e = "file[%d]/" % i
        if utf:
            name, attr = "\xe9" + name, attr | 0x80
        g.at("file[%d]" % i, off_file + len(ftab))
        g.fs(e, filesize=len(body), folder_offset=off, folder_index=k, timestamp=d, filename=name)
        g.fs(e + "attributes/", readonly=bool(attr & 1), hidden=bool(attr & 2), system=bool(attr & 4),
             archive=bool(attr & 0x20), exec=bool(attr & 0x40), name_is_utf=utf)
        t = msdos32(d)
        ftab += pack("<IIHHHH", len(body), off, k, t >> 16, t & 0xffff, attr) + name.encode() + b"\0"
        grp = "file[%d]" % i
        if i < 6:
            g.m("filename", name, group=grp)
            g.m("file_size", len(body), group=grp)
            g.m("creation_date", d, group=grp)
    pos = off_file + len(ftab)
    htab = data = b""
    for k, (method, raw, blocks) in enumerate(folders):
        e = "folder[%d]/" % k
        g.fs(e, offset=pos + len(data), data_blocks=len(blocks), compr_method=method)
        htab += pack("<IHH", pos + len(data), len(blocks), method) + rbytes(rng, rf)
        b0 = len(data)
        for j, (b, n) in enumerate(blocks):
            p = "folder_data[%d]/block[%d]" % (k, j)
            g.at(p, pos + len(data), 8 + rd + len(b))
            g.fs(p + "/", size=len(b), uncompressed_size=n)
            data += pack("<IHH", rng.randrange(1 << 32), len(b), n) + rbytes(rng, rd) + b
        g.at("folder_data[%d]" % k, pos + b0, len(data) - b0)
        g.part("folder_data[%d]" % k, raw)
    g.folders = [(raw, sorted([(off, body) for _, off, kk, body, _, _, _ in files if kk == k])) for k, (_, raw, _) in enumerate(folders)]
    size = pos + len(data)
    sid = rng.randrange(65536)
    g.data = pack("<4sIIIIIBBHHHHH", b"MSCF", 0, size, 0, off_file, 0, 3, 1, nfold, len(files), 4 if reserved else 0, sid, 0)
    if reserved:
        g.data += pack("<HBB", rh, rf, rd) + rbytes(rng, rh)
        g.fs("", reserved_header_size=rh, reserved_folder_size=rf, reserved_data_size=rd)
    g.data += htab + ftab + data
    g.size = size
    g.fs("", filesize=size, off_file=off_file, minor_version=3, major_version=1, nb_folder=nfold, nb_files=len(files), setid=sid)
    g.m("comment", "%s folders, %s files" % (nfold, len(files)))
    g.m("format_version", "Microsoft Cabinet version 1.3")
    return g


def rpm_props(rng, g, prefix, base, items, texts):
    """items: list of (tag, type, values)"""
    store = b""
    index = b""
    rows = []
    for tag, typ, vals in items:
        if typ in (3, 4, 5):
            store += bytes(-len(store) % {3: 2, 4: 4, 5: 8}[typ])
        off = len(store)
        if typ in (6, 8, 9):
            raw = b"".join(v.encode() + b"\0" for v in vals)
        elif typ == 7:
            raw = vals[0]
        else:
            raw = pack(">%d%s" % (len(vals), {2: "B", 3: "H", 4: "I", 5: "Q"}[typ]), *vals)
        rows.append((tag, typ, off, len(vals) if typ != 7 else len(raw), vals))
        store += raw
    if rng.random() < .4:
        rng.shuffle(rows)
        g.use("items not in the order of their data")
    for i, (tag, typ, off, n, vals) in enumerate(rows):
        g.fs("%s/item[%d]/" % (prefix, i), tag=tag, type=typ, offset=off, count=n)
        c = "%s/content_item[%d]/" % (prefix, i)
        g.at(c[:-1], base + 16 + 16 * len(rows) + off)
        if len(vals) == 1:
            g.f(c + "value", vals[0])
        else:
            for j, v in enumerate(vals):
                g.f(c + "value[%d]" % j, v)
        index += pack(">IIII", tag, typ, off, n)
    g.fs(prefix + "/", count=len(rows), size=len(store))
    out = b"\x8e\xad\xe8\x01" + bytes(4) + pack(">II", len(rows), len(store)) + index + store
    g.at(prefix, base, len(out))
    return out


@gen("archive")
def rpm(rng):
    g = G("rpm", "rpm")
    texts = Texts(rng)
    name = word(rng, 3, 60)
    arch, os, typ = rng.randrange(20), rng.randrange(20), rng.randrange(2)
    g.data = pack(">4sBBHH66sHH16x", b"\xed\xab\xee\xdb", 3, rng.randrange(2), typ, arch, name.encode(), os, 5)
    g.fs("", major_ver=3, type=typ, architecture=arch, name=name, os=os, signature_type=5)

    def some(tags):
        out = []
        for tag in tags:
            t = rng.choice((2, 3, 4, 4, 6, 6, 7, 8, 9))
            n = rng.randint(1, 4) if t in (2, 3, 4, 8) else 1
            if t in (6, 8, 9):
                vals = [texts() for _ in range(n)]
                if rng.random() < .02:
                    g.use("large texts")
                    vals = [texts(3000, 6000) for _ in range(n)]
            elif t == 7:
                vals = [rbytes(rng, rng.randint(1, 40))]
                if rng.random() < .05:
                    g.use("large data")
                    vals = [rbytes(rng, rng.choice((255, 256, 65535, 65536, 70000)))]
            else:
                vals = [rng.randrange(1 << {2: 8, 3: 16, 4: 32}[t]) for _ in range(n)]
            out.append((tag, t, vals))
        return out
    g.data += rpm_props(rng, g, "checksum", len(g.data), some(rng.sample(range(1000, 1006), rng.randint(2, 5))), texts)
    if len(g.data) % 8:
        g.use("padded signature")
        g.data += bytes(-len(g.data) % 8)
    g.data += rpm_props(rng, g, "header", len(g.data), some(rng.sample(range(1000, 1050), rng.randint(2, 12))), texts)
    body = content(rng, 1)
    payload = pygzip.compress(body, mtime=0) if rng.random() < .5 else bz2.compress(body)
    g.at("content", len(g.data), len(payload))
    g.part("content", payload)
    g.data += payload
    return g


@gen("archive")
def mar(rng):
    g = G("mar", "mar")
    n = rng.randint(1, 6)
    g.f("magic", "MARC")
    g.fs("", version=3, nb_file=n)
    pos = 12 + 68 * n
    tab, data = b"", b""
    for i in range(n):
        name = word(rng, 1, 55)
        body = content(rng, 1)
        data += bytes(rng.choice((0, 0, 3)))
        g.fs("file[%d]/" % i, filename=name, filesize=len(body), offset=pos + len(data))
        tab += pack("<56sIII", name.encode(), len(body), pyzlib.crc32(body), pos + len(data))
        g.f("file[%d]/crc32" % i, pyzlib.crc32(body))
        g.at("data[%d]" % i, pos + len(data), len(body))
        g.part("data[%d]" % i, body)
        data += body
        g.m("filename", name, group="file[%d]" % i)
        g.m("file_size", len(body), group="file[%d]" % i)
    g.data = pack("<4sII", b"MARC", 3, n) + tab + data
    g.m("comment", "Contains %d files" % n)
    g.m("format_version", "Microsoft Archive version 3")
    return g
