"""C09: strip removes the metadata, keeps the media and leaves a valid file.

Each execution strips a file: generated with blocks of metadata, padding and
index at any place and of any size, or a real file to which blocks were added.
The oracle is an independent strip: the file is split into chunks from the
definition of its format (not with hachoir), the chunks of the selected kinds
are left out and the enclosing sizes are written again.  Monitors:
  output   the bytes of the new file, none if there is nothing to remove
  valid    the new file is recognized as the same format, parsed without more
           errors than the original file
  again    a second strip finds nothing; another level finds what is left
  source   the file isn't modified, no other file appears
  cli      the program: status, messages, files
"""
import io
import contextlib
import os
import re
import shutil
import struct
import subprocess
import sys
import tarfile
import tempfile
import zlib

from vlib import check, corpus, env, gen
from vlib.check import Result, rng_for
from vlib.env import SEED
from vlib.formats import BY_ID, tmp_root
from hachoir.core.log import log
from hachoir.editor import createEditor
from hachoir.parser import createParser
from hachoir.stream import StringInputStream
from hachoir.strip import STRIP_INDEX, STRIP_METADATA, STRIP_USELESS, stripEditor

PID = "C09"
LEVELS = {"useless": STRIP_USELESS, "metadata": STRIP_METADATA, "index": STRIP_INDEX}
MARK = b"SecretMarker"


# ------------------------------------------------ independent strip (models)
# strip_x(data, kinds) -> the stripped file; the same bytes if nothing is removed

def png_chunks(data):
    pos = 8
    while pos + 12 <= len(data):
        n = int.from_bytes(data[pos:pos + 4], "big")
        yield data[pos + 4:pos + 8], data[pos:pos + 12 + n]
        pos += 12 + n
        if data[pos - 12 - n + 4:pos - n - 4] == b"IEND":
            break
    if pos < len(data):
        yield None, data[pos:]


def strip_png(data, kinds):
    out = data[:8]
    for tag, raw in png_chunks(data):
        if "metadata" in kinds and tag in (b"tEXt", b"zTXt", b"iTXt", b"tIME"):
            continue
        out += raw
    return out


def jpeg_segments(data):
    """segments before the first scan, and the rest"""
    pos = 2
    while pos + 4 <= len(data) and data[pos] == 0xFF and data[pos + 1] != 0xDA:
        n = int.from_bytes(data[pos + 2:pos + 4], "big")
        yield data[pos + 1], data[pos:pos + 2 + n]
        pos += 2 + n
    yield None, data[pos:]


def strip_jpeg(data, kinds):
    out = data[:2]
    for tag, raw in jpeg_segments(data):
        if "metadata" in kinds and tag is not None:
            if tag in (0xED, 0xEE, 0xFE) or (tag == 0xE1 and raw[4:10] == b"Exif\0\0"):
                continue
        out += raw
    return out


def strip_mp3(data, kinds):
    if "metadata" in kinds:
        if data[:3] == b"ID3":
            n = 0
            for b in data[6:10]:
                n = n << 7 | b & 127
            data = data[10 + n + (10 if data[5] & 0x10 else 0):]
        if data[-128:-125] == b"TAG":
            data = data[:-128]
    return data


def strip_au(data, kinds):
    start = int.from_bytes(data[4:8], "big")
    if "metadata" in kinds and start > 24:
        return data[:4] + (24).to_bytes(4, "big") + data[8:24] + data[start:]
    return data


RIFF_META = (b"INAM", b"IART", b"ICMT", b"ICOP", b"IENG", b"ICRD", b"ISFT", b"IDIT")


class Node:
    """A chunk of a RIFF file"""

    def __init__(self, tag, data=b"", sub=None, items=None, pad=b"\0", counted=True):
        self.tag, self.data, self.sub, self.items = tag, data, sub, items
        self.pad = pad          # byte after a chunk of odd size (empty: missing)
        self.counted = counted  # the size contains the last padding byte (lists)

    def body(self):
        """(bytes, size to declare)"""
        if self.items is None:
            return self.data, len(self.data)
        out = self.sub
        extra = 0
        for i, n in enumerate(self.items):
            raw = n.bytes()
            out += raw
            extra = n.odd() and 1
        return out, len(out) - (1 if extra and not self.counted and self.last is self.items[-1] else 0)

    def odd(self):
        return self.body()[1] % 2 and self.pad

    def bytes(self):
        b, n = self.body()
        out = self.tag + n.to_bytes(4, "little") + b
        if n % 2 and len(b) == n:
            out += self.pad
        return out

    def freeze(self):
        self.last = self.items[-1] if self.items else None
        for n in self.items or ():
            n.freeze()

    def kind(self, form):
        if self.tag == b"JUNK" or (self.tag == b"fact" and form == b"WAVE"):
            return "useless"
        if self.tag in RIFF_META or (self.tag == b"LIST" and self.sub == b"INFO"):
            return "metadata"
        if self.tag == b"idx1" and form == b"AVI ":
            return "index"

    def filter(self, kinds, form):
        if self.items is None or self.sub == b"movi":
            return False
        n = len(self.items)
        self.items = [i for i in self.items if i.kind(form) not in kinds]
        changed = n != len(self.items)
        for i in self.items:
            if i.filter(kinds, form):
                changed = True
                if i is self.last:
                    # its padding is counted now
                    self.counted = True
        return changed

    def walk(self):
        yield self
        for n in self.items or ():
            yield from n.walk()


def parse_riff(data, start, end, real_end):
    """Chunks of data[start:end]"""
    out = []
    while start < end:
        tag, n = data[start:start + 4], int.from_bytes(data[start + 4:start + 8], "little")
        stop = start + 8 + n
        if stop > real_end:
            raise ValueError("truncated")
        if tag == b"LIST" and n >= 4:
            items, sub = parse_riff(data, start + 12, stop, real_end), data[start + 8:start + 12]
            node = Node(tag, sub=sub, items=items)
            last = start + 12 + sum(len(i.bytes()) for i in items)
            node.counted = not last > stop
            stop = max(last, stop)
        else:
            node = Node(tag, data[start + 8:stop])
        if n % 2 and stop == start + 8 + n:
            node.pad = data[stop:stop + 1]
            stop += len(node.pad)
        out.append(node)
        node.freeze()
        start = stop
    return out


def riff_tree(data):
    n = int.from_bytes(data[4:8], "little")
    end = 8 + n
    root = Node(b"RIFF", sub=data[8:12], items=parse_riff(data, 12, end, len(data)))
    root.freeze()
    got = root.bytes()
    root.counted = len(got) == end
    tail = data[max(len(got), end):]
    if root.bytes() + tail != data:
        raise ValueError("not modelled")
    return root, tail


def strip_riff(data, kinds):
    root, tail = riff_tree(data)
    form = root.sub
    had = any(n.tag == b"idx1" for n in root.items)
    if not root.filter(kinds, form):
        return data
    if "index" in kinds and had and form == b"AVI ":
        for n in root.walk():
            if n.tag == b"avih":
                flags = int.from_bytes(n.data[12:16], "little") & ~0x10
                n.data = n.data[:12] + flags.to_bytes(4, "little") + n.data[16:]
                break
    return root.bytes() + tail


def strip_tar(data, kinds):
    if "metadata" not in kinds:
        return data
    out = bytearray(data)
    pos = 0
    while pos + 512 <= len(data):
        h = data[pos:pos + 512]
        if not h[:100].strip(b"\0"):
            break
        new = (h[:108] + b"0000000\0" * 2 + h[124:136] + b"00000000000\0" + b" " * 8 + h[156:265] + bytes(64) + h[329:])
        if new[:148] + h[148:156] + new[156:] != h:
            new = new[:148] + b"%06o\0 " % sum(new) + new[156:]
            out[pos:pos + 512] = new
        size = int(h[124:136].strip(b" \0") or b"0", 8)
        pos += 512 + (size + 511) // 512 * 512
    return bytes(out)


MODEL = {"png": strip_png, "jpeg": strip_jpeg, "mpeg_audio": strip_mp3, "au": strip_au, "riff": strip_riff, "tar": strip_tar}
EXT = {"png": ".png", "jpeg": ".jpg", "mpeg_audio": ".mp3", "au": ".au", "riff": ".wav", "tar": ".tar"}


# ---------------------------------------------------------------- generators

def rtext(rng, lo=0, hi=None):
    hi = hi or rng.choice((5, 30, 30, 400, 5000))
    return (MARK + bytes(rng.choice(b"abcXYZ .,-0189") for _ in range(rng.randint(lo, hi))))[:rng.choice((hi, 10000))]


def png_chunk(tag, data):
    return len(data).to_bytes(4, "big") + tag + data + zlib.crc32(tag + data).to_bytes(4, "big")


def more_png(rng, data):
    chunks = list(png_chunks(data))
    for _ in range(rng.choice((0, 1, 1, 2, 5))):
        k = rng.choice(("tEXt", "tEXt", "zTXt", "iTXt", "tIME", "prVt", "gAMA"))
        kw = rng.choice((b"Author", b"Comment", b"Creation Time", b"Software"))
        if k == "tEXt":
            c = png_chunk(b"tEXt", kw + b"\0" + rtext(rng))
        elif k == "zTXt":
            c = png_chunk(b"zTXt", kw + b"\0\0" + zlib.compress(rtext(rng)))
        elif k == "iTXt":
            c = png_chunk(b"iTXt", kw + b"\0\0\0fr\0Auteur\0" + rtext(rng))
        elif k == "tIME":
            if any(t == b"tIME" for t, raw in chunks):
                continue
            c = png_chunk(b"tIME", struct.pack(">HBBBBB", 2006, 5, 17, 12, 30, 1))
        elif k == "prVt":
            c = png_chunk(b"prVt", rng.randbytes(rng.randint(0, 40)))
        else:
            continue
        at = rng.randint(1, max(1, next(i for i, (t, raw) in enumerate(chunks) if t == b"IEND")))
        # the chunks of image data follow each other
        while chunks[at][0] == chunks[at - 1][0] == b"IDAT":
            at += 1
        chunks.insert(at, (k.encode(), c))
    return data[:8] + b"".join(raw for t, raw in chunks)


def segment(tag, data):
    return bytes((0xFF, tag)) + (len(data) + 2).to_bytes(2, "big") + data


def exif(rng):
    text = rtext(rng, 4, 60) + b"\0"
    ifd = struct.pack("<H", 1) + struct.pack("<HHII", 0x013B, 2, len(text), 26) + bytes(4)
    return segment(0xE1, b"Exif\0\0" + b"II*\0\x08\0\0\0" + ifd + text)


def photoshop(rng):
    text = rtext(rng, 4, 200)
    iptc = b"\x1c\x02\x50" + len(text).to_bytes(2, "big") + text
    raw = b"8BIM" + b"\x04\x04" + b"\0\0" + len(iptc).to_bytes(4, "big") + iptc + b"\0" * (len(iptc) % 2)
    return segment(0xED, b"Photoshop 3.0\0" + raw)


def more_jpeg(rng, data):
    segs = list(jpeg_segments(data))
    for _ in range(rng.choice((0, 1, 1, 2, 5))):
        k = rng.choice(("com", "com", "exif", "photoshop", "adobe", "xmp", "icc", "app0"))
        if k == "com":
            s = segment(0xFE, rtext(rng, 1))
        elif k == "exif":
            s = exif(rng)
        elif k == "photoshop":
            s = photoshop(rng)
        elif k == "adobe":
            s = segment(0xEE, b"Adobe" + struct.pack(">HHHB", 100, 0, 0, rng.randrange(2)))
        elif k == "xmp":
            s = segment(0xE1, b"http://ns.adobe.com/xap/1.0/\0<x/>")
        elif k == "icc":
            s = segment(0xE2, b"ICC_PROFILE\0\1\1" + rng.randbytes(rng.randint(10, 300)))
        else:
            s = segment(0xE0, b"JFXX\0\x13\1\1" + bytes(3))
            continue
        at = rng.randint(0 if k == "exif" and rng.random() < .5 else min(1, len(segs) - 1), len(segs) - 1)
        segs.insert(at, (s[1], s))
    return data[:2] + b"".join(raw for t, raw in segs)


def mp3_file(rng):
    frame = b"\xff\xfb" + bytes((rng.choice((0x90, 0x80, 0x50)), rng.choice((0x04, 0x44, 0xC4))))
    size = {0x90: 417, 0x80: 365, 0x50: 208}[frame[2]]
    out = b""
    for _ in range(rng.randint(6, 30)):
        body = bytearray(rng.randbytes(size - 4))
        # no synchronization in the data
        for i in range(len(body)):
            if body[i] == 0xFF:
                body[i] = 0xFE
        out += frame + bytes(body)
    return out


def id3v2_tag(rng):
    frames = b""
    for _ in range(rng.randint(1, 5)):
        name = rng.choice((b"TIT2", b"TPE1", b"TALB", b"TCOP", b"TENC"))
        t = b"\0" + rtext(rng)
        frames += name + len(t).to_bytes(4, "big") + b"\0\0" + t
    frames += bytes(rng.choice((0, 0, 10, 1000)))
    n = len(frames)
    return b"ID3\3\0\0" + bytes((n >> 21 & 127, n >> 14 & 127, n >> 7 & 127, n & 127)) + frames


def id3v1_tag(rng):
    def t(n):
        return rtext(rng, 0, n)[:n].ljust(n, b"\0")
    return b"TAG" + t(30) + t(30) + t(30) + b"2006" + t(30) + b"\x05"


def more_mp3(rng, data):
    data = strip_mp3(data, ["metadata"])
    if rng.random() < .6:
        data = id3v2_tag(rng) + data
    if rng.random() < .6:
        data += id3v1_tag(rng)
    return data


def more_au(rng, data):
    data = strip_au(data, ["metadata"])
    info = rng.choice((b"", b"", rtext(rng), bytes(4), rtext(rng) + bytes(rng.randint(0, 20)), rng.randbytes(rng.randint(1, 40))))
    return data[:4] + (24 + len(info)).to_bytes(4, "big") + data[8:24] + info + data[24:]


def info_chunk(rng, counted=None):
    items = []
    for _ in range(rng.randint(1, 5)):
        items.append(Node(rng.choice(RIFF_META[:7] + (b"IGNR",)), rtext(rng, 0) + b"\0" * rng.randint(0, 2)))
    if not rng.randrange(6):
        items.append(Node(b"JUNK", bytes(rng.randint(0, 30))))
    return Node(b"LIST", sub=b"INFO", items=items, counted=rng.random() < .7 if counted is None else counted)


def more_riff(rng, data):
    try:
        root, tail = riff_tree(data)
    except ValueError:
        return data
    form = root.sub
    lists = [n for n in root.walk() if n.items is not None and n.sub in (b"hdrl", b"strl", root.sub, b"INFO")]
    for _ in range(rng.choice((0, 1, 1, 2, 5))):
        parent = rng.choice(lists) if rng.random() < .5 else root
        k = rng.choice(("info", "info", "junk", "junk", "other", "idit", "fact", "list", "index"))
        if k == "info":
            node = info_chunk(rng)
        elif k == "junk":
            node = Node(b"JUNK", bytes(rng.choice((0, 1, 2, 7, 30, 2000))))
        elif k == "other":
            node = Node(rng.choice((b"cue ", b"bext", b"abcd", b"JUN ", b"junk", b"LISt")), rng.randbytes(rng.randint(0, 40)))
        elif k == "idit":
            node = Node(b"IDIT", b"Mon Mar 10 15:04:43 2003\n\0")
        elif k == "fact":
            if form != b"WAVE" or any(n.tag == b"fact" for n in root.walk()):
                continue
            node = Node(b"fact", rng.randbytes(4))
        elif k == "list":
            node = Node(b"LIST", sub=rng.choice((b"adtl", b"abcd")), counted=rng.random() < .7, items=[
                rng.choice((info_chunk(rng), Node(b"JUNK", bytes(5)), Node(b"labl", rng.randbytes(rng.randint(1, 9)))))
                for _ in range(rng.randint(1, 4))])
            if node.items and rng.random() < .7:
                lists.append(node)
        else:
            if form != b"AVI " or any(n.tag == b"idx1" for n in root.walk()):
                continue
            node = Node(b"idx1", b"00dc" + struct.pack("<III", 16, 4, 10))
            parent = root
        first = 1 if parent is root else 1 if parent.sub in (b"hdrl", b"strl") else 0
        at = rng.randint(min(first, len(parent.items)), len(parent.items))
        if parent is root and form == b"WAVE" and any(n.tag == b"data" for n in root.items[:0]):
            at = 0
        parent.items.insert(at, node)
    root.freeze()
    if rng.random() < .2:
        root.counted = False
    if rng.random() < .1 and not tail:
        # the padding of the last chunk is missing
        root.items[-1].pad = b""
    root.freeze()
    out = root.bytes() + tail
    return out


def tar_file(rng):
    out = io.BytesIO()
    fmt = rng.choice((tarfile.USTAR_FORMAT, tarfile.GNU_FORMAT, tarfile.GNU_FORMAT, tarfile.GNU_FORMAT))
    t = tarfile.open(fileobj=out, mode="w", format=fmt)
    for i in range(rng.randint(1, 6)):
        ti = tarfile.TarInfo("dir/file%d%s" % (i, "x" * rng.choice((0, 20, 80))))
        ti.mode = rng.choice((0o644, 0o755))
        zero = rng.random() < .3
        ti.uid, ti.gid = (0, 0) if zero else (rng.randrange(3000), rng.randrange(3000))
        ti.mtime = 0 if zero else rng.randrange(1 << 31)
        ti.uname, ti.gname = ("", "") if zero else (rng.choice(("", "alice")), rng.choice(("", "users")))
        r = rng.random()
        body = b""
        if r < .15:
            ti.type = tarfile.DIRTYPE
        elif r < .25:
            ti.type, ti.linkname = tarfile.SYMTYPE, "target"
        else:
            body = rng.randbytes(rng.choice((0, 1, 511, 512, 513, 3000)))
            ti.size = len(body)
        t.addfile(ti, io.BytesIO(body))
    t.close()
    data = out.getvalue()
    if rng.random() < .2:
        data = data.rstrip(b"\0")
        data += bytes(-len(data) % 512)
    return data


def make(rng, kind):
    """(format, data)"""
    if kind == "png":
        return "png", more_png(rng, gen.make("png", rng).data)
    if kind == "jpeg":
        return "jpeg", more_jpeg(rng, gen.make("jpeg", rng).data)
    if kind == "mp3":
        return "mpeg_audio", more_mp3(rng, mp3_file(rng))
    if kind in ("wav", "avi", "cda"):
        return "riff", more_riff(rng, gen.make(kind, rng).data)
    if kind == "au":
        return "au", more_au(rng, gen.make("au", rng).data)
    return "tar", tar_file(rng)


KINDS = ("png", "jpeg", "mp3", "wav", "avi", "cda", "au", "tar")
SAMPLES = {"logo-kubuntu.png": "png", "gps.jpg": "jpeg", "green_fire.jpg": "jpeg", "jpeg.exif.photoshop.jpg": "jpeg",
           "usa_railroad.jpg": "jpeg", "sheep_on_drugs.mp3": "mpeg_audio", "steganography.mp3": "mpeg_audio",
           "marc_kravetz.mp3": "mpeg_audio", "08lechat_hq_fr.mp3": "mpeg_audio", "kde_click.wav": "riff",
           "ladouce_1h15.wav": "riff", "smallville.s03e02.avi": "riff", "cd_0008_5C48_1m53s.cda": "riff",
           "angle-bear-48x48.ani": "riff", "audio_8khz_8bit_ulaw_4s39.au": "au", "small_text.tar": "tar"}
MORE = {"png": more_png, "jpeg": more_jpeg, "mpeg_audio": more_mp3, "riff": more_riff, "au": more_au}


# ------------------------------------------------------------------ executions

class Messages:
    def __enter__(self):
        self.lines = []
        self.old = log.on_new_message
        log.on_new_message = lambda level, prefix, text, ctxt: self.lines.append(text)
        return self

    def __exit__(self, *a):
        log.on_new_message = self.old


def all_fields(p):
    n = 0
    todo = [p]
    while todo and n < 20000:
        for f in todo.pop():
            n += 1
            if f.is_field_set:
                todo.append(f)
    return n


def parse_log(path):
    """(class or None, messages about the structure)"""
    with Messages() as m:
        try:
            p = createParser(path)
        except Exception as err:
            return "%s: %s" % (type(err).__name__, err), []
        if p is None:
            return None, []
        with p:
            cls = type(p).__name__
            try:
                all_fields(p)
            except Exception as err:
                m.lines.append("parse: %s" % err)
    return cls, sorted(re.sub(r"[0-9]+", "N", x) for x in m.lines)


def strip_file(path, out, level):
    """True if a file was written; what was printed"""
    p = createParser(path)
    if p is None:
        return None, ""
    text = io.StringIO()
    with p, contextlib.redirect_stdout(text):
        r = stripEditor(createEditor(p), out, level, True)
    return (r, os.path.exists(out)), text.getvalue()


def examine(res, rng, fmt, data, label, name):
    """Strip a file with some levels"""
    key = fmt + ":"
    model = MODEL[fmt]
    try:
        model(data, list(LEVELS))
    except Exception:
        res.ev("not modelled")
        return
    tmp = tempfile.mkdtemp(dir=tmp_root())
    try:
        path = os.path.join(tmp, name)
        with open(path, "wb") as fp:
            fp.write(data)
        cls, messages = parse_log(path)
        if cls is None:
            res.ev("files which aren't recognized")
            return
        if not cls.lower().startswith({"mpeg_audio": "mpegaudio"}.get(fmt, fmt)):
            res.ev("recognized as another format")
            return
        chosen = [["metadata", "useless", "index"]]
        names = sorted(LEVELS)
        for _ in range(2):
            chosen.append([n for n in names if rng.random() < .5] or [rng.choice(names)])
        for kinds in chosen:
            level = sum(LEVELS[k] for k in kinds)
            want = model(data, kinds)
            out = os.path.join(tmp, "out" + os.path.splitext(name)[1])
            what = "%s, strip %s" % (label, "+".join(kinds))
            try:
                got, text = strip_file(path, out, level)
            except Exception as err:
                import traceback
                res.fail(key + type(err).__name__, "%s: %s %s" % (what, err, traceback.format_exc()[-300:]))
                continue
            res.evals += 4
            res.ev("strips")
            res.ev("strip: " + fmt)
            with open(path, "rb") as fp:
                if fp.read() != data:
                    res.fail(key + "source", "%s: the source was modified" % what)
            left = sorted(os.listdir(tmp))
            if [x for x in left if x not in (name, os.path.basename(out))]:
                res.fail(key + "files", "%s: files %s" % (what, left))
            if want == data:
                res.ev("nothing to remove")
                if os.path.exists(out):
                    res.fail(key + "rewritten", "%s: nothing to remove, but a file is written" % what)
                    os.unlink(out)
                continue
            res.ev("files written")
            res.seen(data, kinds)
            if not os.path.exists(out):
                res.fail(key + "not-written", "%s: no new file (%s)" % (what, text[:200]))
                continue
            with open(out, "rb") as fp:
                new = fp.read()
            res.ev("bytes removed", len(data) - len(want))
            if new != want:
                n = next((j for j, (a, b) in enumerate(zip(new, want)) if a != b), min(len(new), len(want)))
                res.fail(key + "output", "%s: %d bytes instead of %d (source %d), first difference at %d: %s instead of %s" % (
                    what, len(new), len(want), len(data), n, new[n:n + 12].hex(), want[n:n + 12].hex()))
            # valid
            cls2, messages2 = parse_log(out)
            if cls2 != cls and name.endswith((EXT[fmt], ".avi", ".ani", ".cda", ".au")):
                res.fail(key + "format", "%s: the new file is recognized as %s" % (what, cls2))
            more = [x for x in messages2 if x not in messages]
            res.evals += 1
            if more:
                res.fail(key + "messages", "%s: parsing the new file: %s" % (what, more[:3]))
            # whatever the name
            try:
                BY_ID[{"au": "sun_next_snd"}.get(fmt, fmt)](StringInputStream(new), validate=True)
            except Exception as err:
                res.fail(key + "recognized", "%s: the new file isn't recognized: %s" % (what, err))
            # again
            again = os.path.join(tmp, "again")
            try:
                strip_file(out, again, level)
            except Exception as err:
                res.fail(key + "again:" + type(err).__name__, "%s: second strip: %s" % (what, err))
            res.evals += 1
            res.ev("second strips")
            if os.path.exists(again):
                res.fail(key + "again", "%s: the second strip writes a file (%d bytes, %d)" % (what, os.path.getsize(again), len(new)))
                os.unlink(again)
            if new == want and len(kinds) < 3 and rng.random() < .4:
                # the other kinds are still there
                rest = [k for k in LEVELS if k not in kinds]
                try:
                    strip_file(out, again, sum(LEVELS[k] for k in rest))
                    w2 = model(want, rest)
                    if os.path.exists(again):
                        with open(again, "rb") as fp:
                            g2 = fp.read()
                    else:
                        g2 = want
                    res.expect(g2 == w2, key + "rest", "%s, then %s: %d bytes instead of %d" % (what, rest, len(g2), len(w2)))
                    res.ev("strips of the other kinds")
                except Exception as err:
                    res.fail(key + "rest:" + type(err).__name__, "%s, then %s: %s" % (what, rest, err))
                if os.path.exists(again):
                    os.unlink(again)
            os.unlink(out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def cli_case(k):
    """hachoir-strip on several files"""
    res = Result()
    rng = rng_for(PID, SEED, "cli", k)
    tmp = tempfile.mkdtemp(dir=tmp_root())
    try:
        files = {}
        for i in range(rng.randint(1, 4)):
            fmt, data = make(rng, rng.choice(KINDS))
            try:
                MODEL[fmt](data, list(LEVELS))
            except Exception:
                continue
            files["f%d%s" % (i, EXT[fmt])] = (fmt, data)
        for n, (fmt, data) in files.items():
            with open(os.path.join(tmp, n), "wb") as fp:
                fp.write(data)
        cls = {n: parse_log(os.path.join(tmp, n))[0] for n in files}
        files = {n: v for n, v in files.items()}
        if not files or any(not str(cls[n]).lower().startswith({"mpeg_audio": "mpegaudio"}.get(f, f)) for n, (f, d) in files.items()):
            return res
        kinds = rng.choice((None, ["metadata"], ["useless"], ["index"], ["useless", "metadata"], ["index", "metadata"], ["useless", "index"]))
        args = [] if kinds is None else ["--strip=" + rng.choice((",", ", ")).join(kinds)]
        if rng.random() < .3:
            args.append("--quiet")
        r = subprocess.run([sys.executable, os.path.join(env.REPO, "hachoir-strip")] + args + sorted(files), cwd=tmp,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        out = r.stdout.decode("utf-8", "replace")
        label = "cli #%d: hachoir-strip %s %s" % (k, " ".join(args), " ".join(sorted(files)))
        res.ev("command lines")
        res.seen(*[d for f, d in files.values()], args)
        res.expect(r.returncode == 0, "cli:status", "%s: status %s: %s" % (label, r.returncode, r.stderr[-300:]))
        kinds = kinds or list(LEVELS)
        want = {}
        for n, (fmt, data) in files.items():
            want[n] = data
            w = MODEL[fmt](data, kinds)
            if w != data:
                want[n + ".new"] = w
                res.expect("Save new file into %s.new" % n in out, "cli:message", "%s: no message for %s" % (label, n))
        got = {}
        for n in os.listdir(tmp):
            with open(os.path.join(tmp, n), "rb") as fp:
                got[n] = fp.read()
        res.expect(sorted(got) == sorted(want), "cli:files", "%s: files %s instead of %s" % (label, sorted(got), sorted(want)))
        for n in want:
            if n in got:
                res.expect(got[n] == want[n], "cli:bytes", "%s: the bytes of %s (%d instead of %d)" % (label, n, len(got[n]), len(want[n])))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return res


def damaged_case(name, k):
    """Truncated and altered files: stripped or refused, no exception"""
    res = Result()
    rng = rng_for(PID, SEED, "damaged", name, k)
    fmt, data = make(rng, name)
    r = rng.random()
    if r < .5:
        data = data[:rng.randint(1, len(data))]
    if r > .3:
        b = bytearray(data)
        for _ in range(rng.choice((1, 1, 3, 10))):
            i = rng.randrange(min(len(b), rng.choice((40, 300, 5000))))
            b[i] = rng.choice((0, 1, 255, 127, 128, b[i] ^ (1 << rng.randrange(8)), rng.randrange(256)))
        data = bytes(b)
    label = "damaged %s #%d" % (name, k)
    tmp = tempfile.mkdtemp(dir=tmp_root())
    try:
        path, out, again = (os.path.join(tmp, n + EXT[fmt]) for n in ("file", "out", "again"))
        with open(path, "wb") as fp:
            fp.write(data)
        kinds = [n for n in sorted(LEVELS) if rng.random() < .7] or ["metadata"]
        level = sum(LEVELS[x] for x in kinds)
        try:
            got, text = strip_file(path, out, level)
        except Exception as err:
            import traceback
            res.fail("damaged:" + type(err).__name__, "%s (%d bytes), strip %s: %s %s" % (
                label, len(data), "+".join(kinds), err, traceback.format_exc()[-400:]), data=data.hex()[:800])
            return res
        res.evals += 2
        if got is None:
            res.ev("damaged files which aren't recognized")
            return res
        res.ev("damaged files stripped")
        with open(path, "rb") as fp:
            if fp.read() != data:
                res.fail("damaged:source", "%s: the source was modified" % label)
        if os.path.exists(out):
            res.seen(data, kinds)
            with open(out, "rb") as fp:
                new = fp.read()
            res.ev("damaged files written")
            res.expect(len(new) <= len(data), "damaged:size", "%s: %d bytes written, the source has %d" % (label, len(new), len(data)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return res


def case(c):
    kind, name, k = c
    if kind == "damaged":
        return damaged_case(name, k)
    if kind == "cli":
        return cli_case(k)
    res = Result()
    rng = rng_for(PID, SEED, kind, name, k)
    label = "%s %s #%d" % (kind, name, k)
    if kind == "gen":
        fmt, data = make(rng, name)
        if k < 1:
            res.samples.append("%s: %d bytes, stripped %d" % (label, len(data), len(MODEL[fmt](data, list(LEVELS)))))
        examine(res, rng, fmt, data, label, "file" + EXT[fmt] if rng.random() < .8 else "file.dat")
    else:
        fmt = SAMPLES[name]
        data = corpus.load(name)
        if k and fmt in MORE:
            try:
                data = MORE[fmt](rng, data)
            except Exception:
                pass
        examine(res, rng, fmt, data, label, name)
    return res


def main():
    c = check.Check(PID, "bytes of the file and kinds to remove",
                    required=tuple("strip: " + f for f in MODEL) + ("nothing to remove", "files written", "second strips",
                                                                     "strips of the other kinds", "damaged files written", "command lines"))
    cases = []
    for k in range(c.n(500, 8000)):
        cases += [("gen", n, k) for n in KINDS]
        cases += [("damaged", n, k) for n in KINDS]
        if k % 10 == 0:
            cases += [("sample", n, k // 10) for n in SAMPLES if len(corpus.load(n)) < 700000]
        if k % 4 == 0:
            cases.append(("cli", "", k))
    c.run(case, cases, timeout=240, deadline=c.deadline(150, 3000), on_timeout=c.note_timeout)
    return c.finish()


if __name__ == "__main__":
    raise SystemExit(main())
