"""Audio and video files."""
import datetime
import math
import struct
import zlib

from vlib.gen import G, Texts, gen, pack, phrase, pick_dim, rbytes, word
from vlib.gen.image import png_bytes

EPOCH_MAC = datetime.datetime(1904, 1, 1)
TD = datetime.timedelta


def near(n):
    """expected duration: compared with a tolerance of one microsecond"""
    return TD(seconds=n)


# ------------------------------------------------------------------- RIFF

def chunk(tag, data):
    return tag + pack("<I", len(data)) + data + bytes(len(data) % 2)


def riff(kind, chunks):
    body = kind + b"".join(chunks)
    return b"RIFF" + pack("<I", len(body)) + body


INFO = {b"INAM": ("title", "title"), b"IART": ("artist", "artist"), b"ICMT": ("comment", "comment"),
        b"ICOP": ("copyright", "copyright"), b"IENG": ("author", "author"), b"ISFT": ("producer", "producer")}


def info_list(rng, g, texts, pos, prefix="info"):
    """LIST INFO at the byte offset pos"""
    out = b"INFO"
    for tag in rng.sample(sorted(INFO), rng.randint(1, len(INFO))):
        t = texts()
        name, key = INFO[tag]
        g.f("%s/%s/text" % (prefix, name), t)
        g.at("%s/%s" % (prefix, name), pos + 8 + len(out))
        data = t.encode() + b"\0" * rng.randint(0, 2)
        out += chunk(tag, data)
        g.m(key, t)
    return chunk(b"LIST", out)


@gen("media")
def wav(rng):
    g = G("wav", "riff")
    texts = Texts(rng)
    out = []

    def add(name, c):
        g.at(name, 12 + sum(map(len, out)), len(c))
        out.append(c)
    codec = rng.choice((1, 1, 1, 3, 6, 7, 0x55))
    ch = rng.randint(1, 6)
    rate = rng.choice((8000, 11025, 22050, 44100, 48000, 96000))
    bits = rng.choice((8, 16, 24, 32)) if codec in (1, 3) else 8
    ext = rng.random() < .3
    rbytes_ = ch * bits // 8 * rate
    align = ch * bits // 8
    add("format", chunk(b"fmt ", pack("<HHIIHH", codec, ch, rate, rbytes_, align, bits) + (b"\0\0" if ext else b"")))
    g.fs("format/", codec=codec, nb_channel=ch, sample_per_sec=rate, byte_per_sec=rbytes_, block_align=align,
         bit_per_sample=bits)
    samples = None
    if rng.random() < .4:
        samples = rng.randrange(1, 10 ** 7)
        add("nb_sample", chunk(b"fact", pack("<I", samples)))
        g.f("nb_sample/nb_sample", samples)
    if rng.random() < .3:
        c = chunk(b"JUNK", bytes(rng.randint(1, 30)))
        add("junk[0]", c)
    first = rng.random() < .5
    info = rng.random() < .6
    if info and first:
        add("info", info_list(rng, g, texts, 12 + sum(map(len, out))))
    data = rbytes(rng, rng.randint(1, 3000))
    at = 12 + sum(map(len, out))
    add("audio_data", chunk(b"data", data))
    g.at("audio_data/raw_content", at + 8, len(data))
    if info and not first:
        add("info", info_list(rng, g, texts, 12 + sum(map(len, out))))
    if rng.random() < .3:
        add("chunk[0]", chunk(b"xyz ", rbytes(rng, rng.randint(1, 9))))
    g.data = riff(b"WAVE", out)
    g.size = len(g.data)
    g.f("filesize", g.size - 8)
    g.f("type", "WAVE")
    g.m("nb_channel", ch)
    g.m("bits_per_sample", bits)
    g.m("sample_rate", rate)
    if samples:
        g.m("duration", TD(seconds=samples / rate))
    elif codec in (1, 3, 6):
        d = len(data) * 8 / (ch * bits * rate)
        if d > .001:
            g.m("duration", TD(seconds=d))
    if codec in (1, 3, 6):
        g.m("bit_rate", ch * bits * rate)
    return g


@gen("media")
def avi(rng):
    g = G("avi", "riff")
    texts = Texts(rng)
    w, h = pick_dim(rng), pick_dim(rng)
    usec = rng.choice((0, 40000, 41666, 33366, rng.randint(1000, 200000)))
    frames = rng.randrange(1, 100000)
    nstream = rng.randint(1, 3)
    kinds = [rng.choice(("vids", "auds")) for _ in range(nstream)]
    if "vids" in kinds[1:]:
        kinds = [k if i == kinds.index("vids") else "auds" for i, k in enumerate(kinds)]
    avih = pack("<III", usec, rng.randrange(1 << 20), 0) + pack("<I", rng.choice((0, 0x10, 0x110, 0x910, 0x20030)))
    flags, = struct.unpack("<I", avih[12:16])
    sug = rng.randrange(1 << 20)
    avih += pack("<IIIIIIIIII", frames, 0, nstream, sug, w, h, 1, 25, 0, frames)
    H = "headers/"
    g.fs(H + "avi_hdr/", microsec_per_frame=usec, total_frame=frames, nb_stream=nstream, width=w, height=h,
         sug_buf_size=sug, has_index=bool(flags & 0x10), must_use_index=bool(flags & 0x20),
         is_interleaved=bool(flags & 0x100), trust_cktype=bool(flags & 0x800), was_capture_file=bool(flags & 0x10000),
         is_copyrighted=bool(flags & 0x20000))
    hdrl = b"hdrl" + chunk(b"avih", avih)
    duration = None
    naud = 0
    for i, kind in enumerate(kinds):
        scale, rate = rng.choice(((1, 25), (1001, 30000), (2, 50), (1, 15)))
        length = rng.randrange(1, 100000)
        fourcc = rng.choice(("DIVX", "XVID", "MJPG")) if kind == "vids" else ""
        right, bottom = rng.randrange(2000), rng.randrange(2000)
        prio = rng.randrange(9)
        strh = pack("<4s4sIHHIIIIIIIIHHHH", kind.encode(), fourcc.encode(), 0, prio, 0, 0, scale, rate, 0, length,
                    sug, 0, 0, 0, 0, right, bottom)
        s = H + "stream[%d]/" % i
        g.fs(s + "stream_hdr/", stream_type=kind, fourcc=fourcc, scale=scale, rate=rate, length=length, right=right,
             bottom=bottom, priority=prio)
        if kind == "vids":
            depth = rng.choice((8, 16, 24, 32))
            strf = pack("<IIIHHIIIIII", 40, w, h, 1, depth, 0x58564944, w * h * 3, 0, 0, 0, 0)
            g.fs(s + "stream_fmt/", width=w, height=h, depth=depth, panes=1)
            grp = "video"
            g.m("width", w, group=grp)
            g.m("height", h, group=grp)
            g.m("bits_per_pixel", depth, group=grp)
            g.m("frame_rate", rate / scale, group=grp)
            duration = TD(seconds=length / (rate / scale))
            g.m("duration", duration, group=grp)
        else:
            naud += 1
            codec, ch, sr = rng.choice((1, 0x55, 0x2000)), rng.randint(1, 6), rng.choice((22050, 44100, 48000))
            br, bits = rng.randrange(1000, 40000), rng.choice((0, 8, 16))
            strf = pack("<HHIIHH", codec, ch, sr, br, 4, bits)
            if rng.random() < .4:
                strf += b"\0\0"
                g.f(s + "stream_fmt/ext_size", 0)
            g.fs(s + "stream_fmt/", codec=codec, channel=ch, sample_rate=sr, bit_rate=br, block_align=4, bits_per_sample=bits)
            grp = "audio[%d]" % naud
            g.m("nb_channel", ch, group=grp)
            g.m("sample_rate", sr, group=grp)
            g.m("bit_rate", br * 8, group=grp)
            g.m("duration", TD(seconds=length / (rate / scale)), group=grp)
            if bits:
                g.m("bits_per_sample", bits, group=grp)
        strl = b"strl" + chunk(b"strh", strh) + chunk(b"strf", strf)
        g.at(s[:-1], 12 + 8 + len(hdrl), 8 + len(strl))
        hdrl += chunk(b"LIST", strl)
    if rng.random() < .3:
        n = rng.randrange(1, 99999)
        hdrl += chunk(b"LIST", b"odml" + chunk(b"dmlh", pack("<I", n) + bytes(rng.choice((0, 4, 244)))))
        g.f(H + "odml/odml_hdr/total_frame", n)
    out = [chunk(b"LIST", hdrl)]
    g.at("headers", 12, len(out[0]))
    if rng.random() < .5:
        out.append(info_list(rng, g, texts, 12 + len(out[0])))
    if rng.random() < .5:
        out.append(chunk(b"JUNK", bytes(rng.randint(1, 50))))
    movi = b"movi"
    index = []
    for i in range(rng.randint(1, 6)):
        tag = rng.choice((b"00dc", b"01wb"))
        d = rbytes(rng, rng.randint(1, 300))
        index.append((tag, 0x10, len(movi), len(d)))
        g.f("movie/field[%d]/tag" % i, tag.decode())
        g.at("movie/field[%d]" % i, 12 + sum(map(len, out)) + 8 + len(movi))
        movi += chunk(tag, d)
    out.append(chunk(b"LIST", movi))
    if rng.random() < .6:
        out.append(chunk(b"idx1", b"".join(pack("<4sIII", *e) for e in index)))
        for i, (tag, fl, off, n) in enumerate(index):
            g.fs("index/index[%d]/" % i, tag=tag.decode(), flags=fl, start=off, length=n)
        size = 8 + 16 * len(index)
        com = "Has audio/video index (%d bytes)" % size
        old = [m[2] for m in g.meta if m[1] == "comment"]
        if old:
            old[0].insert(0, com)
        else:
            g.m("comment", com)
    g.data = riff(b"AVI ", out)
    g.size = len(g.data)
    g.m("width", w)
    g.m("height", h)
    if usec:
        fps = 1000000 / usec
        if 5 < fps < 100:
            g.m("frame_rate", fps)
    if duration is None and usec:
        duration = TD(microseconds=frames * usec)
    if duration is not None:
        g.m("duration", duration)
    if usec:
        g.description = "Microsoft AVI video: %sx%s pixels, %.1f fps, " % (w, h, 1000000 / usec)
    return g


@gen("media")
def cda(rng):
    g = G("cda", "riff")
    rb = [rng.randrange(75), rng.randrange(60), rng.randrange(80)]
    rl = [rng.randrange(75), rng.randrange(60), rng.randrange(80)]
    no, serial = rng.randrange(1, 99), rng.randrange(1 << 32)
    off = (rb[2] * 60 + rb[1]) * 75 + rb[0]
    length = (rl[2] * 60 + rl[1]) * 75 + rl[0]
    g.data = riff(b"CDDA", [chunk(b"fmt ", pack("<HHIII", 1, no, serial, off, length) + bytes(rb + [0] + rl + [0]))])
    g.size = len(g.data)
    g.fs("cdda/", cda_version=1, track_no=no, disc_serial=serial, hsg_offset=off, hsg_length=length)
    g.disp("cdda/disc_serial", "%04X-%04X" % (serial >> 16, serial & 0xffff))
    g.fs("cdda/rb_offset/", frame=rb[0], second=rb[1], minute=rb[2])
    g.fs("cdda/rb_length/", frame=rl[0], second=rl[1], minute=rl[2])
    return g


# ------------------------------------------------------------- AIFF, AU

def float80(x):
    m, e = math.frexp(x)
    return pack(">HQ", e - 1 + 16383, int(m * (1 << 64)))


@gen("media")
def aiff(rng):
    g = G("aiff", "aiff")
    texts = Texts(rng)
    aifc = rng.random() < .4
    ch, n, bits = rng.randint(1, 6), rng.randrange(10 ** 7), rng.choice((8, 12, 16, 24, 32))
    rate = rng.choice((8000, 11025, 22050, 44100, 48000))
    comm = pack(">HIH", ch, n, bits) + float80(rate)
    if aifc:
        comm += rng.choice((b"NONE", b"sowt", b"fl32", b"alaw")) + b"\x00\x00"
    chunks = [("common", b"COMM", comm)]
    g.fs("common/", nb_channel=ch, nb_sample=n, sample_size=bits, sample_rate=float(rate))
    data = rbytes(rng, rng.randint(1, 2000))
    chunks.append(("sound", b"SSND", pack(">II", 0, 0) + data))
    g.fs("sound/", offset=0, block_size=0)
    for name, tag in (("name", b"NAME"), ("author", b"AUTH")):
        if rng.random() < .5:
            t = texts()
            chunks.append((name, tag, t.encode()))
            g.f(name + "/text", t)
    if rng.random() < .4:
        d = EPOCH_MAC + TD(seconds=rng.randrange(1 << 32))
        chunks.append(("version", b"FVER", pack(">I", int((d - EPOCH_MAC).total_seconds()))))
        g.f("version/timestamp", d)
    if rng.random() < .3:
        body = pack(">H", 2)
        for i in range(2):
            d, t, marker = EPOCH_MAC + TD(seconds=rng.randrange(1 << 32)), texts(), rng.choice((0, 1, 7))
            if len(t) % 2:
                t += "x"
            body += pack(">IHH", int((d - EPOCH_MAC).total_seconds()), marker, len(t)) + t.encode()
            g.fs("comment/comment[%d]/" % i, timestamp=d, text=t)
        chunks.append(("comment", b"COMT", body))
    rng.shuffle(chunks)
    out = b""
    for name, tag, body in chunks:
        c = tag + pack(">I", len(body)) + body + bytes(len(body) % 2)
        g.at(name, 12 + len(out), len(c))
        if name == "sound":
            g.at("sound/data", 12 + len(out) + 16, len(data))
        out += c
    g.data = b"FORM" + pack(">I", len(out) + 4) + (b"AIFC" if aifc else b"AIFF") + out
    g.size = len(g.data)
    g.f("filesize", g.size - 8)
    g.m("nb_channel", ch)
    g.m("bits_per_sample", bits)
    g.m("sample_rate", rate)
    g.m("duration", TD(seconds=n / rate))
    g.m("bit_rate", ch * bits * rate)
    return g


@gen("media")
def au(rng):
    g = G("au", "sun_next_snd")
    codec, bits = rng.choice(((1, 8), (2, 8), (3, 16), (4, 24), (5, 32), (27, 8)))
    rate, ch = rng.choice((8000, 22050, 44100)), rng.randint(1, 2)
    info = ""
    raw = b""
    if rng.random() < .7:
        info = phrase(rng)
        raw = info.encode() + bytes(rng.randint(1, 4))
    data = rbytes(rng, rng.randint(1, 3000))
    g.data = pack(">4sIIIII", b".snd", 24 + len(raw), len(data), codec, rate, ch) + raw + data
    g.size = len(g.data)
    g.fs("", data_ofs=24 + len(raw), data_size=len(data), codec=codec, sample_rate=rate, channels=ch)
    if info:
        g.f("info", info)
        g.m("comment", info)
    g.at("audio_data", 24 + len(raw), len(data))
    g.m("sample_rate", rate)
    g.m("nb_channel", ch)
    g.m("bits_per_sample", bits)
    g.m("bit_rate", bits * ch * rate)
    d = len(data) * 8 / (bits * ch * rate)
    if d > .001:
        g.m("duration", TD(seconds=d))
    return g


# ------------------------------------------------------------------- MIDI

def vlq(n):
    out = bytes([n & 127])
    while n > 127:
        n >>= 7
        out = bytes([n & 127 | 128]) + out
    return out


@gen("media")
def midi(rng):
    g = G("midi", "midi")
    texts = Texts(rng)
    fmt = rng.randrange(3)
    ntrack = 1 if fmt == 0 else rng.randint(1, 4)
    delta = rng.choice((96, 120, 480))
    g.fs("header/", size=6, file_format=fmt, nb_track=ntrack, delta_time=delta)
    out = b"MThd" + pack(">IHHH", 6, fmt, ntrack, delta)
    for t in range(ntrack):
        body = b""
        last = None
        n = rng.randint(1, 25)
        for i in range(n):
            p = "track[%d]/command[%d]/" % (t, i)
            dt = rng.choice((0, 5, 127, 128, 200, 16383, 16384, 2097151))
            at = len(out) + 8 + len(body)
            g.at(p[:-1], at)
            g.f(p + "time", dt)
            ev = vlq(dt)
            r = rng.random()
            if i == n - 1:
                ev += b"\xff\x2f\0"
                g.fs(p, command=255, meta_command=0x2f, data_len=0)
                last = None
            elif r < .25:
                kind = rng.choice((1, 2, 3, 4, 5, 6, 7))
                s = texts(1, 30)
                ev += bytes([255, kind]) + vlq(len(s)) + s.encode()
                g.fs(p, command=255, meta_command=kind, data_len=len(s), text=s)
                last = None
            elif r < .32:
                v = rng.randrange(1 << 24)
                ev += b"\xff\x51\3" + v.to_bytes(3, "big")
                g.fs(p, meta_command=0x51, microsec_quarter=v)
                last = None
            elif r < .38:
                v = [rng.randint(1, 12), rng.randint(0, 4), rng.randrange(100), 8]
                ev += b"\xff\x58\4" + bytes(v)
                g.fs(p, numerator=v[0], denominator=v[1], nb_tick=v[2], nb_32nd_note=v[3])
                last = None
            elif r < .44:
                hr, mi, se, fr, su, rate = (rng.randrange(24), rng.randrange(60), rng.randrange(60), rng.randrange(30),
                                            rng.randrange(100), rng.randrange(4))
                ev += b"\xff\x54\5" + bytes([rate << 5 | hr, mi, se, fr, su])
                g.fs(p, frame_rate=rate, hour=hr, minute=mi, second=se, frame=fr, subframe=su)
                last = None
            else:
                cmd = rng.choice((0x80, 0x90, 0xa0, 0xb0, 0xc0, 0xd0, 0xe0)) | rng.randrange(16)
                a, b = rng.randrange(128), rng.randrange(128)
                if last is not None and rng.random() < .4:
                    cmd = last
                    g.absent(p + "command")
                else:
                    ev += bytes([cmd])
                    g.f(p + "command", cmd)
                last = cmd
                k = cmd >> 4
                names = {8: ("note", "velocity"), 9: ("note", "velocity"), 10: ("note", "velocity"),
                         11: ("control", "value"), 12: ("program",), 13: ("channel",), 14: ("bottom", "top")}[k]
                for nm, v in zip(names, (a, b)):
                    ev += bytes([v])
                    g.f(p + nm, v)
            body += ev
        g.at("track[%d]" % t, len(out), 8 + len(body))
        g.f("track[%d]/size" % t, len(body))
        g.count("track[%d]/command" % t, n)
        out += b"MTrk" + pack(">I", len(body)) + body
    g.count("track", ntrack)
    g.data = out
    g.size = len(out)
    return g


# ------------------------------------------------------------ FLAC, Vorbis

VORBIS = (("ARTIST", "artist"), ("ALBUM", "album"), ("TITLE", "title"), ("COPYRIGHT", None), ("LICENSE", "copyright"),
          ("ORGANIZATION", "organization"), ("GENRE", "music_genre"), ("COMPOSER", "music_composer"),
          ("DESCRIPTION", "comment"), ("LOCATION", "location"))


def vorbis_comment(rng, g, prefix, texts):
    vendor = texts()
    items = []
    g.f(prefix + "/vendor", vendor)
    g.m("producer", vendor)
    values = {}
    for key, meta in rng.sample(VORBIS, rng.randint(0, 6)):
        v = texts()
        if rng.random() < .2:
            v += " \u20ac\xe9"
        items.append("%s=%s" % (rng.choice((key, key.lower(), key.title())), v))
        if meta:
            values.setdefault(meta, []).append(v)
    if rng.random() < .4:
        no = rng.randint(1, 99)
        items.append("TRACKNUMBER=%d" % no)
        values["track_number"] = [no]
    for i, it in enumerate(items):
        g.f(prefix + "/metadata[%d]" % i, it)
    for k, v in values.items():
        g.m(k, *v)
    g.f(prefix + "/count", len(items))
    out = pack("<I", len(vendor.encode())) + vendor.encode() + pack("<I", len(items))
    for it in items:
        out += pack("<I", len(it.encode())) + it.encode()
    return out


@gen("media")
def flac(rng):
    g = G("flac", "flac")
    texts = Texts(rng)
    rate, ch, bits = rng.choice((8000, 44100, 48000, 96000, 655350)), rng.randint(1, 8), rng.randint(4, 32)
    total = rng.choice((0, rng.randrange(1, 1 << 36), rng.randrange(1, 1 << 24)))
    if total > rate * 3600 * 24 * 20:
        total %= rate * 1000
    md5 = rbytes(rng, 16)
    b0, b1, f0, f1 = rng.randint(16, 4000), rng.randint(4000, 65535), rng.randrange(1 << 24), rng.randrange(1 << 24)
    si = pack(">HH", b0, b1) + f0.to_bytes(3, "big") + f1.to_bytes(3, "big")
    si += (rate << 44 | (ch - 1) << 41 | (bits - 1) << 36 | total).to_bytes(8, "big") + md5
    p = "metadata/stream_info/content/"
    g.fs(p, min_block_size=b0, max_block_size=b1, min_frame_size=f0, max_frame_size=f1, sample_hertz=rate,
         nb_channel=ch - 1, bits_per_sample=bits - 1, total_samples=total, md5sum=md5)
    blocks = [(0, "stream_info", si)]
    extra = []
    if rng.random() < .7:
        extra.append((4, "comment", vorbis_comment(rng, g, "metadata/comment/content", texts)))
    if rng.random() < .5:
        pts = [(rng.randrange(1 << 40), rng.randrange(1 << 40), rng.randrange(1 << 16)) for _ in range(rng.randint(1, 5))]
        extra.append((3, "seek_table", b"".join(pack(">QQH", *x) for x in pts)))
        for i, x in enumerate(pts):
            g.fs("metadata/seek_table/content/point[%d]/" % i, sample_number=x[0], offset=x[1], nb_sample=x[2])
    for i in range(rng.randrange(3)):
        extra.append((1, None, bytes(rng.randint(0, 30))))
    if rng.random() < .3:
        extra.append((2, "application[0]", rbytes(rng, rng.randint(4, 30))))
    rng.shuffle(extra)
    blocks += extra
    out = b"fLaC"
    npad = 0
    for i, (typ, name, body) in enumerate(blocks):
        if typ == 1:
            name = "padding[%d]" % npad
            npad += 1
        last = i == len(blocks) - 1
        e = "metadata/" + name
        g.at(e, len(out), 4 + len(body))
        g.fs(e + "/", last_metadata_block=last, block_type=typ, metadata_length=len(body))
        out += bytes([typ | last << 7]) + len(body).to_bytes(3, "big") + body
    v, sr, ca, ss, bl = rng.randrange(16), rng.randrange(15), rng.randrange(11), rng.randrange(8), rng.randrange(2)
    g.at("frames/frame[0]", len(out))
    g.fs("frames/frame[0]/", sync=0x3ffe, blocking_strategy=bool(bl), block_size=v, sample_rate=sr, channel_assign=ca,
         sample_size=ss)
    if 0 < sr < 12:
        g.disp("frames/frame[0]/sample_rate", "%skHz" % (88.2, 176.4, 192, 8, 16, 22.05, 24, 32, 44.1, 48, 96)[sr - 1])
    out += b"\xff" + bytes([0xf8 | bl, v << 4 | sr, ca << 4 | ss << 1]) + rbytes(rng, rng.randint(4, 500))
    g.data = out
    g.m("nb_channel", ch)
    g.m("bits_per_sample", bits)
    if 1000 <= rate <= 200000:
        g.m("sample_rate", rate)
    if total:
        g.m("duration", TD(seconds=total / rate))
    return g


# -------------------------------------------------------------------- Ogg

class OggWriter:
    def __init__(self, rng, g):
        self.rng, self.g = rng, g
        self.out = b""
        self.pages = 0
        self.parts = {}
        self.first = {}

    def page(self, serial, seq, lacing, data, granule, flags):
        p = "page[%d]/" % self.pages
        g = self.g
        g.fs(p, continued_packet=bool(flags & 1), first_page=bool(flags & 2), last_page=bool(flags & 4),
             abs_granule_pos=granule, serial=serial, page=seq, lacing_size=len(lacing))
        head = pack("<4sBBQIIIB", b"OggS", 0, flags, granule, serial, seq, self.rng.randrange(1 << 32), len(lacing))
        g.at(p[:-1], len(self.out), len(head) + len(lacing) + len(data))
        if data:
            g.at(p + "segments", len(self.out) + len(head) + len(lacing), len(data))
            self.first.setdefault(serial, p + "segments")
        self.parts[serial] = self.parts.get(serial, b"") + data
        self.out += head + bytes(lacing) + data
        self.pages += 1


def lace(n):
    return [255] * (n // 255) + [n % 255]


@gen("media")
def ogg(rng):
    g = G("ogg", "ogg")
    texts = Texts(rng)
    w = OggWriter(rng, g)
    streams = []
    nstream = rng.choice((1, 1, 1, 2))
    granules = []
    for k in range(nstream):
        serial = rng.randrange(1 << 32)
        kind = rng.choice(("vorbis", "theora")) if not k else "theora" if streams[0][1] == "vorbis" else "vorbis"
        p0 = "page[%d]/segments/" % w.pages
        if kind == "vorbis":
            rate, ch = rng.choice((22050, 44100, 48000)), rng.randint(1, 6)
            brs = [rng.choice((0, rng.randrange(1000, 500000))) for _ in range(3)]
            pkt = b"\1vorbis" + pack("<IBIIIIBB", 0, ch, rate, *brs, rng.randrange(256), 1)
            g.fs(p0 + "vorbis_hdr/", type=1, codec="vorbis", audio_channels=ch, audio_sample_rate=rate,
                 bitrate_maximum=brs[0], bitrate_nominal=brs[1], bitrate_minimum=brs[2], framing_flag=1)
            g.m("sample_rate", rate, group="audio[1]")
            g.m("nb_channel", ch, group="audio[1]")
            if brs[1]:
                g.m("bit_rate", brs[1], group="audio[1]")
            granules.append((serial, rate))
        else:
            tw, th = rng.randint(1, 60), rng.randint(1, 60)
            fw, fh = rng.randint(1, tw * 16), rng.randint(1, th * 16)
            num, den = rng.choice(((25, 1), (30000, 1001)))
            q, gp, pf = rng.randrange(64), rng.randrange(32), rng.choice((0, 2, 3))
            br = rng.randrange(1 << 24)
            pkt = (b"\x80theora" + bytes([3, 2, rng.randrange(9)]) + pack(">HH", tw, th) + fw.to_bytes(3, "big")
                   + fh.to_bytes(3, "big") + bytes([1, 2]) + pack(">II", num, den) + b"\0\0\4\0\0\3" + b"\1"
                   + br.to_bytes(3, "big") + pack(">H", q << 10 | gp << 5 | pf << 3))
            g.fs(p0 + "theora_hdr/", type=128, codec="theora", version_major=3, version_minor=2, width=tw, height=th,
                 frame_width=fw, frame_height=fh, offset_x=1, offset_y=2, fps_num=num, fps_den=den,
                 aspect_ratio_num=4, aspect_ratio_den=3, target_bitrate=br, quality=q, gp_shift=gp, pixel_format=pf)
            grp = "video[1]"
            g.m("width", fw, group=grp)
            g.m("height", fh, group=grp)
            g.m("frame_rate", num / den, group=grp)
        w.page(serial, 0, lace(len(pkt)), pkt, 0, 2)
        streams.append((serial, kind))
    pages = []
    for k, (serial, kind) in enumerate(streams):
        todo = []
        if k == 0:
            com = vorbis_comment(rng, g, "page[%d]/segments/comment" % w.pages, texts)
            pkt = (b"\3vorbis" if kind == "vorbis" else b"\x81theora") + com + (b"\1" if kind == "vorbis" else b"")
            if kind == "vorbis":
                g.f("page[%d]/segments/comment/framing_flag" % w.pages, 1)
            w.page(serial, 1, lace(len(pkt)), pkt, 0, 0)
        seq = 2 if k == 0 else 1
        n = rng.randint(0, 4)
        cont = 0
        for i in range(n + 1):
            lac = []
            for _ in range(rng.randint(1, 4)):
                lac += lace(rng.choice((0, 1, 20, 254, 255, 256, 600)))
            nxt = 0
            if i < n and rng.random() < .3:
                lac += [255]            # the packet goes on with the next page
                nxt = 1
            todo.append((serial, seq, lac, rng.randrange(1, 1 << 30), cont | (4 if i == n else 0)))
            cont = nxt
            seq += 1
        pages.append(todo)
    last = {}
    while any(pages):
        todo = rng.choice([t for t in pages if t])
        serial, seq, lac, granule, flags = todo.pop(0)
        d = rbytes(rng, sum(lac)).replace(b"OggS", b"oggs")
        w.page(serial, seq, lac, d, granule, flags)
        lastserial, lastgranule = serial, granule
    g.data = w.out
    g.size = len(w.out)
    g.count("page", w.pages)
    for serial, path in w.first.items():
        g.part(path, w.parts[serial])
    if granules and nstream == 1:
        g.m("duration", TD(seconds=lastgranule / granules[0][1]))
    return g


# -------------------------------------------------------------------- MP3

RATES = {3: (44100, 48000, 32000), 2: (22050, 24000, 16000), 0: (11025, 12000, 8000)}
BR1 = {3: (0, 32, 64, 96, 128, 160, 192, 224, 256, 288, 320, 352, 384, 416, 448),
       2: (0, 32, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384),
       1: (0, 32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320)}
BR2 = {3: (0, 32, 48, 56, 64, 80, 96, 112, 128, 144, 160, 176, 192, 224, 256),
       2: (0, 8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160),
       1: (0, 8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160)}


def synchsafe(n):
    return bytes(n >> s & 127 for s in (21, 14, 7, 0))


def id3v2(rng, g, texts, prefix, base=0):
    ver = rng.choice((2, 3, 4))
    body = b""
    tags = {2: (("TT2", "title"), ("TP1", "author"), ("TAL", "album"), ("TEN", "producer"), ("TCO", "music_genre"),
                ("TCM", None)),
            3: (("TIT2", "title"), ("TPE1", "author"), ("TALB", "album"), ("TENC", "producer"), ("TCON", "music_genre"),
                ("TCOP", "copyright"), ("TSSE", None))}[min(ver, 3)]
    frames = [(tag, key, "text") for tag, key in rng.sample(tags, rng.randint(1, len(tags)))]
    if rng.random() < .5:
        frames.append(("COM" if ver == 2 else "COMM", "comment", "comment"))
    if rng.random() < .4:
        frames.append(("PIC" if ver == 2 else "APIC", None, "picture"))
    if ver > 2 and rng.random() < .3:
        frames.append(("TXXX", None, "user"))
    if rng.random() < .3:
        frames.append(("TRK" if ver == 2 else "TRCK", "track_number", "number"))
    rng.shuffle(frames)
    for i, (tag, key, kind) in enumerate(frames):
        e = "%s/field[%d]/" % (prefix, i)
        cs = rng.choice((0, 1) if ver < 4 else (0, 1, 3))
        enc = {0: "latin1", 1: "utf-16", 3: "utf-8"}[cs]
        t = texts()
        if rng.random() < .2:
            t += "\xe9\xdf" if cs == 0 else "\u20ac\xe9"
        if kind == "text":
            d = bytes([cs]) + t.encode(enc)
            g.f(e + "content/text", t)
            if key:
                g.m(key, t)
        elif kind == "number":
            no = rng.randint(1, 99)
            cs = 0
            d = b"\0" + str(no).encode()
            g.f(e + "content/text", str(no))
            g.m(key, no)
        elif kind == "comment":
            title = "" if rng.random() < .5 else texts()
            zero = "\0".encode("utf-16-le" if cs == 1 else "latin1")
            d = bytes([cs]) + b"eng" + title.encode(enc) + zero + t.encode(enc)
            g.fs(e + "content/", lang="eng", title=title, text=t)
            g.m(key, "%s: %s" % (title, t) if title else t)
        elif kind == "user":
            title = texts()
            zero = "\0".encode("utf-16-le" if cs == 1 else "latin1")
            d = bytes([cs]) + title.encode(enc) + zero + t.encode(enc)
            g.fs(e + "content/", title=title, text=t)
        else:
            cs = 0
            img = png_bytes(rng)
            pt = rng.randrange(21)
            if ver == 2:
                d = b"\0PNG" + bytes([pt]) + t.encode("latin1", "replace") + b"\0" + img
                t = t.encode("latin1", "replace").decode("latin1")
                g.fs(e + "content/", img_fmt="PNG", pict_type=pt, text=t)
            else:
                t = t.encode("latin1", "replace").decode("latin1")
                d = b"\0image/png\0" + bytes([pt]) + t.encode("latin1") + b"\0" + img
                g.fs(e + "content/", mime="image/png", pict_type=pt, description=t)
            g.raw = img
            g.facts.append(("size", e + "content/img_data", len(img) * 8))
        if kind != "picture":
            g.f(e + "content/charset", cs)
        g.f(e + "tag", tag)
        g.f(e + "size", len(d))
        g.at(e[:-1], base + 10 + len(body), len(d) + (6 if ver == 2 else 10))
        if ver == 2:
            body += tag.encode() + len(d).to_bytes(3, "big") + d
        else:
            body += tag.encode() + (synchsafe(len(d)) if ver == 4 else pack(">I", len(d))) + b"\0\0" + d
    n = len(body)
    body += bytes(rng.choice((0, 1, 5, 9, 20, 200)))
    g.fs(prefix + "/", ver_major=ver, ver_minor=0, size=len(body))
    g.at(prefix, base, 10 + len(body))
    return b"ID3" + bytes([ver, 0, 0]) + synchsafe(len(body)) + body


@gen("media")
def mp3(rng):
    g = G("mp3", "mpeg_audio")
    texts = Texts(rng)
    out = b""
    if rng.random() < .6:
        out = id3v2(rng, g, texts, "id3v2")
    ver, layer = rng.choice((3, 3, 2, 0)), rng.choice((1, 1, 2, 3))
    srate, mode = rng.randrange(3), rng.randrange(4)
    emph = rng.choice((0, 1, 3))
    vbr = rng.random() < .3
    br0 = rng.randint(1, 14)
    n = rng.randint(6, 14)
    start = len(out)
    table = (BR1 if ver == 3 else BR2)[layer]
    rate = RATES[ver][srate]
    for i in range(n):
        br = rng.randint(1, 14) if vbr else br0
        if vbr and i == 1:
            br = br0 % 14 + 1
        elif vbr and i == 0:
            br = br0
        pad, cpr, orig, crc, ext = (rng.randrange(2) for _ in range(5))
        kbps = table[br] * 1000
        if layer == 3:
            size = (12 * kbps // rate + pad) * 4
        elif layer == 2 or ver == 3:
            size = 144 * kbps // rate + pad
        else:
            size = 72 * kbps // rate + pad
        h = 0x7ff << 21 | ver << 19 | layer << 17 | crc << 16 | br << 12 | srate << 10 | pad << 9 | mode << 6 | ext << 4
        h |= cpr << 3 | orig << 2 | emph
        e = "frames/frame[%d]" % i
        g.at(e, len(out), size)
        g.fs(e + "/", version=ver, layer=layer, bit_rate=br, sampling_rate=srate, use_padding=bool(pad),
             channel_mode=mode, mode_ext=ext, copyright=bool(cpr), original=bool(orig), emphasis=emph)
        out += pack(">I", h) + bytes(rng.choice((0, 1, 2, 0xaa)) for _ in range(size - 4))
    g.at("frames", start, len(out) - start)
    size = len(out) - start
    if rng.random() < .5:
        song, author, album = texts()[:30].strip(), texts()[:30].strip(), texts()[:30].strip()
        comment = texts()[:30].strip()
        track = 0
        if rng.random() < .5:
            track = rng.randint(1, 99)
            comment = comment[:28].strip()
        genre = rng.randrange(100)
        e = "id3v1/"
        pad = lambda s, n: s.encode().ljust(n, b"\0")
        v1 = b"TAG" + pad(song, 30) + pad(author, 30) + pad(album, 30) + b"2003"
        v1 += (pad(comment, 29) + bytes([track]) if track else pad(comment, 30)) + bytes([genre])
        g.fs(e, song=song, author=author, album=album, year="2003", comment=comment, genre=genre)
        if track:
            g.f(e + "track_nb", track)
        else:
            g.absent(e + "track_nb")
        g.at("id3v1", len(out), 128)
        out += v1
        meta = {k: vals for _, k, vals in g.meta}
        for k, v in (("title", song), ("author", author), ("album", album), ("comment", comment)):
            if k not in meta:
                g.m(k, v)
            else:
                g.meta = [x for x in g.meta if x[1] != k]
        if track:
            g.meta = [x for x in g.meta if x[1] != "track_number"]
    g.data = out
    g.size = len(out)
    g.m("sample_rate", rate)
    g.m("nb_channel", 1 if mode == 3 else 2)
    if not vbr:
        g.m("bit_rate", table[br0] * 1000)
        g.m("duration", TD(seconds=size * 8 / (table[br0] * 1000)))
    return g


# --------------------------------------------------------------- Matroska

class Ebml:
    """An element: name in the tree, identifier, and its children or its data
    with the facts (path relative to the element, value)."""

    def __init__(self, name, ident, content, facts=(), kind="value"):
        self.name, self.ident, self.content, self.facts, self.kind = name, ident, content, facts, kind
        self.unknown = False

    def build(self, rng, pos, path, out):
        """bytes of the element at the offset pos; facts are appended to out"""
        ident = self.ident.to_bytes((self.ident.bit_length() + 7) // 8, "big")
        if isinstance(self.content, bytes):
            n = len(self.content)
            size = vint(n, rng)
            body = self.content
        else:
            # the width of the size is chosen first
            width = rng.choice((2, 3, 4, 8))
            start = pos + len(ident) + width
            body = b""
            seen = {}
            for c in self.content:
                name = c.name
                if name.endswith("[]"):
                    name = "%s[%d]" % (name[:-2], seen.get(name, 0))
                    seen[c.name] = seen.get(c.name, 0) + 1
                body += c.build(rng, start + len(body), path + name + "/", out)
            n = len(body)
            if n >= (1 << 7 * width) - 1:
                width_ok = None
                raise ValueError("too large")
            size = (n | 1 << 7 * width).to_bytes(width, "big")
            if self.unknown:
                size = b"\1" + b"\xff" * 7 if width == 8 else ((1 << 7 * width + 1) - 1).to_bytes(width, "big")
        out.append(("address", path[:-1], pos))
        if not self.unknown:
            out.append(("size", path[:-1], len(ident) + len(size) + len(body)))
            out.append(("value", path + "size", n))
        else:
            out.append(("value", path + "size", None))
        out.append(("value", path + "id", self.ident))
        if isinstance(self.content, bytes):
            for p, v in self.facts:
                if p is None:
                    continue
                if p.startswith("@"):
                    out.append(("address", path + p[1:], pos + len(ident) + len(size) + v))
                else:
                    out.append(("value", path + p, v))
        return ident + size + body


def vint(n, rng=None, width=None):
    if width is None:
        width = 1
        while n >= (1 << 7 * width) - 1:
            width += 1
        if rng is not None and rng.random() < .3:
            width = rng.randint(width, 8)
    return (n | 1 << 7 * width).to_bytes(width, "big")


def svint(n):
    width = 1
    while not -(1 << 7 * width - 1) + 1 <= n <= (1 << 7 * width - 1) - 1:
        width += 1
    return (n + (1 << 7 * width - 1) - 1 | 1 << 7 * width).to_bytes(width, "big")


def eu(rng, name, ident, v, leaf="unsigned"):
    n = max(1, (v.bit_length() + 7) // 8)
    n = rng.choice((n, n, min(8, n + rng.randint(0, 3))))
    return Ebml(name, ident, v.to_bytes(n, "big"), ((leaf, v),))


def es(rng, name, ident, t, leaf="unicode"):
    return Ebml(name, ident, t.encode(), ((leaf, t),))


def ef(rng, name, ident, v):
    if rng.random() < .5:
        return Ebml(name, ident, pack(">d", v), (("double", v),))
    v = struct.unpack(">f", pack(">f", v))[0]
    return Ebml(name, ident, pack(">f", v), (("float", v),))


def eb(rng, name, ident, data):
    return Ebml(name, ident, data, (("@binary", 0),))


def mkv_block(rng, name, ident, simple, track, tc):
    facts = [("block/track", track), ("block/timecode", tc)]
    head = vint(track, rng) + pack(">h", tc)
    lacing = rng.choice((0, 0, 0, 1, 2, 3))
    inv = rng.randrange(2)
    flags = inv << 3 | lacing << 1
    facts += [("block/invisible", bool(inv)), ("block/lacing", lacing)]
    if simple:
        key, disc = rng.randrange(2), rng.randrange(2)
        flags |= key << 7 | disc
        facts += [("block/keyframe", bool(key)), ("block/discardable", bool(disc))]
    head += bytes([flags])
    if not lacing:
        data = rbytes(rng, rng.randint(1, 400))
        facts.append(("@block/frame", len(head)))
        return Ebml(name, ident, head + data, facts)
    n = rng.randint(2, 5)
    if lacing == 2:
        k = rng.randint(1, 300)
        frames = [rbytes(rng, k) for _ in range(n)]
        sizes = b""
    else:
        frames = [rbytes(rng, rng.choice((1, 5, 200, 254, 255, 256, 300, 511, 700))) for _ in range(n)]
        if lacing == 1:
            sizes = b"".join(bytes(lace(len(f))) for f in frames[:-1])
        else:
            sizes = vint(len(frames[0]))
            for a, b in zip(frames[:-2], frames[1:-1]):
                sizes += svint(len(b) - len(a))
    head += bytes([n - 1])
    pos = len(head) + len(sizes)
    for i, f in enumerate(frames):
        facts.append(("@block/Lace/frame[%d]" % i, pos))
        pos += len(f)
    return Ebml(name, ident, head + sizes + b"".join(frames), facts)


@gen("media")
def mkv(rng):
    g = G("mkv", "matroska")
    texts = Texts(rng)

    def some(*els):
        els = [e for e in els if rng.random() < .6]
        rng.shuffle(els)
        return els

    def utext():
        t = texts()
        return t + " \u20ac\xe9\u4e2d" if rng.random() < .3 else t
    doctype = rng.choice(("matroska", "webm"))
    head = [eu(rng, "EBMLVersion", 0x4286, 1), eu(rng, "EBMLReadVersion", 0x42f7, 1), eu(rng, "EBMLMaxIDLength", 0x42f2, 4),
            eu(rng, "EBMLMaxSizeLength", 0x42f3, 8), eu(rng, "DocTypeVersion", 0x4287, rng.randint(1, 4)),
            eu(rng, "DocTypeReadVersion", 0x4285, 2)]
    head = some(*head) + [es(rng, "DocType", 0x4282, doctype, "string")]
    rng.shuffle(head)
    g.mime = "video/webm" if doctype == "webm" else "video/x-matroska"
    facts = []
    data = Ebml("EBML[0]", 0x1a45dfa3, head).build(rng, 0, "EBML[0]/", facts)
    # Info
    scale = rng.choice((1000000, 1000000, 22675, rng.randrange(1, 10 ** 7)))
    dur = float(rng.randrange(1, 10 ** 7)) * 1000000 / scale
    info = []
    has_scale = scale != 1000000 or rng.random() < .6
    if has_scale:
        info.append(eu(rng, "TimecodeScale", 0x2ad7b1, scale))
    if rng.random() < .8:
        e = ef(rng, "Duration", 0x4489, dur)
        info.append(e)
        g.m("duration", TD(seconds=e.facts[0][1] * scale * 1e-9))
    if rng.random() < .5:
        ns = rng.randrange(-10 ** 17, 8 * 10 ** 17) // 1000 * 1000
        info.append(Ebml("DateUTC", 0x4461, pack(">q", ns), (("date", ns),)))
        g.m("creation_date", datetime.datetime(2001, 1, 1) + TD(microseconds=ns // 1000))
    prod = []
    for name, ident, key in (("Title", 0x7ba9, "title"), ("MuxingApp", 0x4d80, 0), ("WritingApp", 0x5741, 0),
                             ("SegmentFilename", 0x7384, None), ("PrevFilename", 0x3c83ab, None), ("NextFilename", 0x3e83bb, None)):
        if rng.random() < .5:
            t = utext()
            info.append(es(rng, name, ident, t))
            if key:
                g.m(key, t)
            elif key == 0:
                prod.append(t)
    if prod:
        g.m("producer", *prod)
    if rng.random() < .5:
        info.append(eb(rng, "SegmentUID", 0x73a4, rbytes(rng, 16)))
    rng.shuffle(info)
    # Tracks
    tracks = []
    count = {}
    for no in range(1, rng.randint(1, 4) + 1):
        kind = rng.choice(("video", "audio", "subtitle"))
        count[kind] = count.get(kind, 0) + 1
        grp = "%s[%d]" % (kind, count[kind])
        t = [eu(rng, "TrackNumber", 0xd7, no), eu(rng, "TrackUID", 0x73c5, rng.randrange(1, 1 << 60)),
             eu(rng, "TrackType", 0x83, {"video": 1, "audio": 2, "subtitle": 0x11}[kind], "enum")]
        t += some(eu(rng, "FlagEnabled", 0xb9, 1, "bool"), eu(rng, "FlagDefault", 0x88, 0, "bool"),
                  eu(rng, "FlagLacing", 0x9c, 1, "bool"), eu(rng, "MinCache", 0x6de7, rng.randrange(9)),
                  eu(rng, "DefaultDuration", 0x23e383, rng.randrange(1, 1 << 30)), ef(rng, "TrackTimecodeScale", 0x23314f, 1.0),
                  eb(rng, "CodecPrivate", 0x63a2, rbytes(rng, rng.randint(1, 60))), es(rng, "CodecName", 0x258688, utext()))
        codec = {"video": ("V_MPEG4/ISO/AVC", "V_VP8"), "audio": ("A_VORBIS", "A_AAC"), "subtitle": ("S_TEXT/UTF8", "S_VOBSUB")}
        codec = rng.choice(codec[kind])
        t.append(es(rng, "CodecID", 0x86, codec, "string"))
        g.m("compression", codec, group=grp)
        if rng.random() < .4:
            n = utext()
            t.append(es(rng, "Name", 0x536e, n))
            g.m("title", n, group=grp)
        lang, long = rng.choice((("fre", "French"), ("ger", "German"), ("jpn", "Japanese"), ("eng", "English")))
        if rng.random() < .6:
            t.append(es(rng, "Language", 0x22b59c, lang, "string"))
        if kind == "video":
            w, h = pick_dim(rng), pick_dim(rng)
            v = [eu(rng, "PixelWidth", 0xb0, w), eu(rng, "PixelHeight", 0xba, h)]
            v += some(eu(rng, "FlagInterlaced", 0x9a, rng.randrange(2), "bool"), eu(rng, "DisplayWidth", 0x54b0, w),
                      eu(rng, "DisplayHeight", 0x54ba, h), eu(rng, "DisplayUnit", 0x54b2, rng.randrange(3), "enum"),
                      eu(rng, "StereoMode", 0x53b8, rng.randrange(4), "enum"), ef(rng, "GammaValue", 0x2fb523, 2.2))
            rng.shuffle(v)
            t.append(Ebml("Video", 0xe0, v))
            g.m("width", w, group=grp)
            g.m("height", h, group=grp)
        elif kind == "audio":
            rate, ch, bits = rng.choice((8000.0, 44100.0, 48000.0)), rng.randint(1, 8), rng.choice((8, 16, 24))
            a = [ef(rng, "SamplingFrequency", 0xb5, rate), eu(rng, "Channels", 0x9f, ch)]
            g.m("sample_rate", rate, group=grp)
            g.m("nb_channel", ch, group=grp)
            if rng.random() < .5:
                a.append(eu(rng, "BitDepth", 0x6264, bits))
                g.m("bits_per_sample", bits, group=grp)
            rng.shuffle(a)
            t.append(Ebml("Audio", 0xe1, a))
        rng.shuffle(t)
        tracks.append(Ebml("TrackEntry[]", 0xae, t))
    # Clusters
    clusters = []
    tc = 0
    blocks = []
    for i in range(rng.randint(1, 3)):
        c = [eu(rng, "Timecode", 0xe7, tc)]
        if rng.random() < .3:
            c.append(eu(rng, "PrevSize", 0xab, rng.randrange(1, 99999)))
        for j in range(rng.randint(1, 5)):
            no = rng.randint(1, len(tracks))
            rel = rng.choice((0, j, 100 * j, -5))
            if rng.random() < .5:
                c.append(mkv_block(rng, "SimpleBlock[]", 0xa3, True, no, rel))
            else:
                b = [mkv_block(rng, "Block", 0xa1, False, no, rel)]
                b += some(eu(rng, "BlockDuration", 0x9b, rng.randrange(1, 9999)), Ebml("ReferenceBlock[]", 0xfb, b"\xff\xd8", (("signed", -40),)))
                c.append(Ebml("BlockGroup[]", 0xa0, b))
                blocks.append((i, j, tc + rel, no))
        clusters.append(Ebml("Cluster[]", 0x1f43b675, c))
        tc += rng.randrange(1, 30000)
    top = [Ebml("Info[]", 0x1549a966, info or [eu(rng, "TimecodeScale", 0x2ad7b1, 1000000)]),
           Ebml("Tracks[]", 0x1654ae6b, tracks)] + clusters
    if rng.random() < .4:
        at = []
        for i in range(rng.randint(1, 3)):
            fn, mime, d = word(rng) + ".png", "image/png", png_bytes(rng)
            a = [es(rng, "FileName", 0x466e, fn), es(rng, "FileMimeType", 0x4660, mime, "string"),
                 Ebml("FileData", 0x465c, d, (("@file", 0),)), eu(rng, "FileUID", 0x46ae, rng.randrange(1, 1 << 50))]
            if rng.random() < .4:
                a.append(es(rng, "FileDescription", 0x467e, utext()))
            rng.shuffle(a)
            at.append(Ebml("AttachedFile[]", 0x61a7, a))
            g.part("Segment[0]/Attachments/AttachedFile[%d]/FileData/file" % i, d)
        top.insert(rng.randint(2, len(top)), Ebml("Attachments", 0x1941a469, at))
    if rng.random() < .4:
        atoms = []
        for i in range(rng.randint(1, 3)):
            atoms.append(Ebml("ChapterAtom[]", 0xb6, [
                eu(rng, "ChapterUID", 0x73c4, rng.randrange(1, 1 << 40)), eu(rng, "ChapterTimeStart", 0x91, rng.randrange(1 << 40)),
                eu(rng, "ChapterFlagHidden", 0x98, 0, "bool"),
                Ebml("ChapterDisplay[]", 0x80, [es(rng, "ChapString", 0x85, utext()), es(rng, "ChapLanguage[]", 0x437c, "eng", "string")])]))
        top.insert(rng.randint(2, len(top)), Ebml("Chapters", 0x1043a770, [Ebml("EditionEntry[]", 0x45b9, [
            eu(rng, "EditionUID", 0x45bc, rng.randrange(1, 1 << 30))] + atoms)]))
    if rng.random() < .5:
        tags = []
        for name, key in (("COPYRIGHT", "copyright"), ("URL", "url"), ("ENCODER", None)):
            if rng.random() < .6:
                t = utext()
                tags.append(Ebml("SimpleTag[]", 0x67c8, [es(rng, "TagName", 0x45a3, name), es(rng, "TagString", 0x4487, t)]))
                if key:
                    g.m(key, t)
        if tags:
            top.insert(rng.randint(2, len(top)), Ebml("Tags[]", 0x1254c367, [
                Ebml("Tag[]", 0x7373, [Ebml("Targets", 0x63c0, [eu(rng, "TargetTypeValue", 0x68ca, 50)])] + tags)]))
    if rng.random() < .3:
        top.insert(rng.randrange(3), eb(rng, "Void[]", 0xec, bytes(rng.randint(1, 200))))
    if rng.random() < .2:
        top.insert(0, eb(rng, "CRC-32[]", 0xbf, rbytes(rng, 4)))
    seg = Ebml("Segment[0]", 0x18538067, top)
    if rng.random() < .15:
        seg.unknown = True
    data += seg.build(rng, len(data), "Segment[0]/", facts)
    g.data = data
    g.size = None if seg.unknown else len(data)
    for kind, path, v in facts:
        if kind == "value":
            g.f(path, v)
        elif kind == "address":
            g.at(path, v)
        else:
            g.facts.append(("size", path, 8 * v))
    g.description = "WebM video" if doctype == "webm" else "Matroska video"
    return g


# -------------------------------------------------------------------- FLV

def amf(rng, g, path, depth=0, top=False):
    """an AMF value of a random type: its bytes, after the type"""
    kind = rng.choice((0, 1, 2, 2, 0, 11) + ((3, 8, 10) if depth < 2 else ()))
    g.f(path + "type", kind)
    if kind == 0:
        v = rng.choice((0.0, 25.0, -1.5, rng.random() * 1e6))
        g.f(path + "value", v)
        d = pack(">d", v)
    elif kind == 1:
        v = rng.randrange(2)
        g.f(path + "value", v)
        d = bytes([v])
    elif kind == 2:
        v = phrase(rng) + rng.choice(("", "\xe9\u20ac"))
        g.f(path + "value", v)
        d = pack(">H", len(v.encode())) + v.encode()
    elif kind == 11:
        v = rng.randrange(0, 2 * 10 ** 9)
        g.facts.append(("value", path[:-1], datetime.datetime(1970, 1, 1) + TD(seconds=v)))
        d = pack(">dH", v * 1000.0, 0)
    elif kind == 10:
        n = rng.randint(0, 4)
        g.f(path + "count", n)
        d = pack(">I", n)
        for i in range(n):
            d += amf(rng, g, "%sitem[%d]/" % (path, i), depth + 1)
    else:
        n = rng.randint(0, 4)
        d = b""
        name = "attr" if kind == 3 else "item"
        if kind == 8:
            d = pack(">I", n)
            g.f(path + "count", n)
        for i in range(n):
            k = word(rng)
            e = "%s%s[%d]/" % (path, name, i)
            g.f(e + "key", k)
            d += pack(">H", len(k)) + k.encode() + amf(rng, g, e, depth + 1)
        d += b"\0\0\x09"
        g.f("%s%s[%d]/key" % (path, name, n), "")
    return bytes([kind]) + d


@gen("media")
def flv(rng):
    g = G("flv", "flv")
    texts = Texts(rng)
    flags = rng.choice((1, 4, 5))
    out = pack(">3sBBI", b"FLV", rng.choice((1, 1, 4)), flags, 9) + bytes(4)
    g.fs("header/", signature="FLV", version=out[3], type_flags_audio=bool(flags & 4), type_flags_video=bool(flags & 1), data_offset=9)
    g.f("prev_size[0]", 0)
    n = {8: 0, 9: 0}
    chunks = []
    if rng.random() < .8:
        chunks.append(18)
    chunks += [rng.choice([t for t, b in ((8, 4), (9, 1)) if flags & b]) for _ in range(rng.randint(1, 6))]
    duration = None
    if rng.random() < .3:
        chunks.append(99)
    for i, tag in enumerate(chunks):
        ts = rng.randrange(1 << 24)
        if tag == 18:
            p = "metadata/"
            d = b"\2" + pack(">H", 10) + b"onMetaData"
            g.fs(p + "entry[0]/", type=2, value="onMetaData")
            items = []
            duration = rng.randrange(1, 10 ** 6) / 100
            w, h = pick_dim(rng), pick_dim(rng)
            fps = rng.choice((25.0, 29.97, 15.0))
            rate = rng.choice((22050.0, 44100.0))
            who = [texts(), texts()]
            for key, v, meta in (("duration", duration, None), ("width", float(w), ("width", w)), ("height", float(h), ("height", h)),
                                 ("framerate", fps, ("frame_rate", fps)), ("audiosamplerate", rate, ("sample_rate", rate)),
                                 ("creator", who[0], ("producer",)), ("metadatacreator", who[1], ("producer",)), ("other", None, None)):
                if rng.random() < .8:
                    items.append((key, v, meta))
                elif key == "duration":
                    duration = None
            rng.shuffle(items)
            prod = []
            body = pack(">I", len(items))
            g.f(p + "entry[1]/count", len(items))
            for j, (key, v, meta) in enumerate(items):
                e = p + "entry[1]/item[%d]/" % j
                g.f(e + "key", key)
                g.at(e[:-1], len(out) + 11 + len(d) + 1 + len(body))
                body += pack(">H", len(key)) + key.encode()
                if v is None:
                    body += amf(rng, g, e)
                elif isinstance(v, float):
                    body += b"\0" + pack(">d", v)
                    g.fs(e, type=0, value=v)
                else:
                    body += b"\2" + pack(">H", len(v)) + v.encode()
                    g.fs(e, type=2, value=v)
                if meta and len(meta) == 2:
                    g.m(*meta)
                elif meta:
                    prod.append(v)
            if prod:
                g.m("producer", *prod)
            if duration:
                g.m("duration", TD(seconds=duration))
            d += b"\x08" + body + b"\0\0\x09"
        elif tag == 8:
            p = "audio[%d]/" % n[8]
            codec, sr, b16, st = rng.choice((0, 1, 6)), rng.randrange(4), rng.randrange(2), rng.randrange(2)
            d = bytes([codec << 4 | sr << 2 | b16 << 1 | st]) + rbytes(rng, rng.randint(1, 200))
            g.fs(p, codec=codec, sampling_rate=sr, is_16bit=bool(b16), is_stereo=bool(st))
            g.at(p + "music_data", len(out) + 12, len(d) - 1)
            if not n[8]:
                g.m("sample_rate", (5512, 11025, 22050, 44100)[sr], group="audio")
                g.m("bits_per_sample", 16 if b16 else 8, group="audio")
                g.m("nb_channel", 2 if st else 1, group="audio")
                g.m("compression", {0: "Uncompressed", 1: "ADPCM", 6: "Nellymoser"}[codec], group="audio")
            n[8] += 1
        elif tag == 9:
            p = "video[%d]/" % n[9]
            ft, codec = rng.randint(1, 3), rng.randint(2, 4)
            d = bytes([ft << 4 | codec]) + rbytes(rng, rng.randint(1, 300))
            g.fs(p, frame_type=ft, codec=codec)
            g.at(p + "data", len(out) + 12, len(d) - 1)
            if not n[9]:
                g.m("compression", {2: "Sorensen H.263", 3: "Screen video", 4: "On2 VP6"}[codec], group="video")
            n[9] += 1
        else:
            p = "chunk[0]/"
            d = rbytes(rng, rng.randint(1, 30))
        g.fs(p, tag=tag, size=len(d), timestamp=ts)
        g.at(p[:-1], len(out), 11 + len(d))
        out += bytes([tag]) + len(d).to_bytes(3, "big") + ts.to_bytes(3, "big") + bytes(4) + d
        out += pack(">I", 11 + len(d))
        g.f("prev_size[%d]" % (i + 1), 11 + len(d))
    g.data = out
    if duration:
        g.m("bit_rate", len(out) * 8 / duration) if len(out) * 8 / duration > 500 else None
    g.description = "Macromedia Flash video version %d" % out[3]
    return g


# -------------------------------------------------------------------- SWF

def msb_bits(values):
    """big-endian bit string: [(value, bits)]"""
    n = v = 0
    for x, k in values:
        v = v << k | x & (1 << k) - 1
        n += k
    pad = -n % 8
    return (v << pad).to_bytes((n + pad) // 8, "big")


@gen("media")
def swf(rng):
    g = G("swf", "swf")
    texts = Texts(rng)
    version = rng.randint(1, 10)
    xmax, ymax = rng.randrange(20, 40000), rng.randrange(20, 40000)
    nbits = max(xmax.bit_length(), ymax.bit_length()) + rng.randint(1, 8)
    rate, count = (rng.randrange(256), rng.randrange(1, 120)), rng.randrange(1 << 16)
    body = msb_bits([(nbits, 5), (0, nbits), (xmax, nbits), (0, nbits), (ymax, nbits)])
    g.at("rect", 8, len(body))
    g.fs("rect/", nbits=nbits, xmin=0, xmax=xmax, ymin=0, ymax=ymax)
    g.desc("rect", "Rectangle: %ux%u" % (math.ceil(xmax / 20), math.ceil(ymax / 20)))
    body += bytes(rate) + pack("<H", count)
    g.fs("", version=version, frame_rate=rate[1] + rate[0] / 256, frame_count=count)
    seen = {}

    def tag(code, name, d, **facts):
        nonlocal body
        if name.endswith("[]"):
            seen[name] = seen.get(name, -1) + 1
            name = "%s[%d]" % (name[:-2], seen[name])
        pos = 8 + len(body)
        if len(d) >= 63 or rng.random() < .2:
            body += pack("<HI", code << 6 | 63, len(d)) + d
            head = 6
        else:
            body += pack("<H", code << 6 | len(d)) + d
            head = 2
        g.at(name, pos, head + len(d))
        g.fs(name + "/", code=code, length=len(d))
        for k, v in facts.items():
            if k.startswith("at_"):
                g.at(name + "/" + k[3:], pos + head + v[0], v[1])
            else:
                g.f(name + "/" + k, v)
        return name
    hz = {0: "5.5 kHz", 1: "11.0 kHz", 2: "22.1 kHz", 3: "44.1 kHz"}
    n = rng.randint(1, 12)
    for i in range(n):
        r = rng.randrange(12)
        if r == 0:
            c = rbytes(rng, 3)
            nm = tag(9, "bkgd_color[]", c)
            g.fs(nm + "/color/", red=c[0], green=c[1], blue=c[2])
        elif r == 1:
            st, b16, sr, codec = rng.randrange(2), rng.randrange(2), rng.randrange(4), rng.choice((0, 1, 3, 6))
            samples, sid = rng.randrange(1 << 32), rng.randrange(1 << 16)
            m = rbytes(rng, rng.randint(1, 200))
            tag(14, "def_sound[]", pack("<HBI", sid, codec << 4 | sr << 2 | b16 << 1 | st, samples) + m, sound_id=sid,
                is_stereo=bool(st), is_16bit=bool(b16), rate=sr, codec=codec, sample_count=samples, at_music_data=(7, len(m)))
        elif r == 2:
            fl = rng.randrange(64)
            sid = rng.randrange(1 << 16)
            d = pack("<HB", sid, fl)
            facts = dict(sound_id=sid, has_in_point=bool(fl & 1), has_out_point=bool(fl & 2), has_loops=bool(fl & 4),
                         has_envelope=bool(fl & 8), no_multiple=bool(fl & 16), stop_playback=bool(fl & 32))
            for bit, nm, f in ((1, "in_point", "<I"), (2, "out_point", "<I"), (4, "loop_count", "<H")):
                if fl & bit:
                    v = rng.randrange(1 << 16)
                    d += pack(f, v)
                    facts[nm] = v
            if fl & 8:
                k = rng.randint(1, 4)
                d += bytes([k])
                facts["envelope/count"] = k
                for j in range(k):
                    v = (rng.randrange(1 << 32), rng.randrange(1 << 15), rng.randrange(1 << 15))
                    d += pack("<IHH", *v)
                    for nm, x in zip(("mark44", "level0", "level1"), v):
                        facts["envelope/%s[%d]" % (nm, j)] = x
            tag(15, "start_sound[]", d, **facts)
        elif r == 3 and "sound_hdr2[]" not in seen:
            b = [rng.randrange(2), rng.randrange(2), rng.randrange(4), rng.randrange(2), rng.randrange(2), rng.randrange(4),
                 rng.choice((0, 1, 2, 3, 6))]
            k = rng.randrange(1 << 16)
            d = bytes([b[2] << 2 | b[1] << 1 | b[0], b[6] << 4 | b[5] << 2 | b[4] << 1 | b[3]]) + pack("<H", k)
            facts = {}
            if b[6] == 2:
                facts["latency_seek"] = rng.randrange(1 << 15)
                d += pack("<H", facts["latency_seek"])
            nm = tag(45, "sound_hdr2[]", d, playback_is_stereo=bool(b[0]), playback_is_16bit=bool(b[1]), playback_rate=b[2],
                     sound_is_stereo=bool(b[3]), sound_is_16bit=bool(b[4]), sound_rate=b[5], codec=b[6], sample_count=k, **facts)
            g.disp(nm + "/sound_rate", hz[b[5]])
        elif r == 4:
            items = [(rng.randrange(1 << 16), texts()) for _ in range(rng.randint(1, 4))]
            facts = {"count": len(items)}
            d = pack("<H", len(items))
            for j, (k, t) in enumerate(items):
                d += pack("<H", k) + t.encode() + b"\0"
                facts["export[%d]/object_id" % j] = k
                facts["export[%d]/name" % j] = t
            tag(56, "export[]", d, **facts)
        elif r == 5:
            items = [(rng.randrange(1 << 16), texts()) for _ in range(rng.randint(1, 4))]
            facts = {"count": len(items)}
            d = pack("<H", len(items))
            for j, (k, t) in enumerate(items):
                d += pack("<H", k) + t.encode() + b"\0"
                facts["symbol_id[%d]" % j] = k
                facts["symbol_name[%d]" % j] = t
            tag(76, "symbol_class[]", d, **facts)
        elif r == 6:
            a, b = rng.randrange(1 << 16), rng.randrange(1 << 16)
            tag(65, "script_limits[]", pack("<HH", a, b), max_recursion_limit=a, timeout_seconds=b)
        elif r == 7:
            a, d = rng.randrange(1 << 16), rbytes(rng, rng.randint(1, 100))
            tag(87, "def_binary_data[]", pack("<HI", a, 0) + d, data_id=a, reserved=0, at_data=(6, len(d)))
        elif r == 8:
            a, b, d = rng.randrange(1 << 16), rng.randrange(1 << 16), rbytes(rng, rng.randint(1, 100))
            tag(61, "video_frame[]", pack("<HH", a, b) + d, stream_id=a, frame_num=b, at_video_data=(4, len(d)))
        elif r == 9:
            d = rbytes(rng, rng.choice((1, 62, 63, 64, 300)))
            tag(2, "def_shape[]", d, at_data=(0, len(d)))
        elif r == 10 and "product_info" not in seen:
            seen["product_info"] = 0
            v = (6, 5, 3, 1, rng.randrange(1 << 40), rng.randrange(1 << 40))
            tag(41, "product_info", pack("<iiBBqq", *v), product_id=6, edition=5, major_version=3, minor_version=1,
                build_number=v[4], compilation_date=v[5])
        else:
            tag(1, "show_frame[]", b"")
    tag(0, "end[]", b"")
    data = b"FWS" + bytes([version]) + pack("<I", 8 + len(body)) + body
    g.f("filesize", len(data))
    if rng.random() < .3:
        g.use("compressed")
        g.facts = [x for x in g.facts if x[1] in ("version", "filesize")]
        g.data = b"CWS" + data[3:8] + zlib.compress(body)
        g.at("compressed_data", 8, len(g.data) - 8)
        g.part("compressed_data", data)
        g.description = "Macromedia Flash data: version %d, compressed" % version
    else:
        g.data = data
        g.size = len(data)
        g.description = "Macromedia Flash data: version %d" % version
        g.m("comment", "Frame count: %d" % count)
        g.m("format_version", "flash version %d" % version)
    return g


# -------------------------------------------------------------------- ASF

def guid_bytes(text):
    import uuid
    return uuid.UUID(text).bytes_le


ASF = {"header": "75B22630-668E-11CF-A6D9-00AA0062CE6C", "file_prop": "8CABDCA1-A947-11CF-8EE4-00C00C205365",
       "header_ext": "5FBF03B5-A92E-11CF-8EE3-00C00C205365", "codec_list": "86D15240-311D-11D0-A3A4-00A0C90348F6",
       "data": "75B22636-668E-11CF-A6D9-00AA0062CE6C", "stream_prop[]": "B7DC0791-A9B7-11CF-8EE6-00C00C205365",
       "bit_rates": "7BF875CE-468D-11D1-8D82-006097C9A2B2", "ext_desc": "D2D0A440-E307-11D2-97F0-00A0C95EA850",
       "metadata": "75B22633-668E-11CF-A6D9-00AA0062CE6C", "simple_index": "33000890-E5B1-11CF-89F4-00A0C90349CB",
       "bitrate_mutex": "D6E229DC-35DA-11D1-9034-00A0C90349BE"}
ASF_VIDEO, ASF_AUDIO = "BC19EFC0-5B4D-11CF-A8FD-00805F5C442B", "F8699E40-5B4D-11CF-A8FD-00805F5C442B"
EPOCH_WIN = datetime.datetime(1601, 1, 1)


@gen("media")
def asf(rng):
    g = G("asf", "asf")
    texts = Texts(rng)

    def utf16(t, zero=True):
        return t.encode("utf-16-le") + (b"\0\0" if zero else b"")

    def utext():
        t = texts()
        return t + " \u20ac\u65e5\xe9" if rng.random() < .3 else t
    objs = []       # (name, content, facts: (path in content, value))

    def add(name, d, **facts):
        objs.append((name, d, facts))
    fid = "%08X-1234-4ABC-89AB-0123456789AB" % rng.randrange(1 << 32)
    created = EPOCH_WIN + TD(days=rng.randrange(140000, 156000), seconds=rng.randrange(86400), microseconds=rng.randrange(10 ** 6))
    ticks = (created - EPOCH_WIN) // TD(microseconds=1) * 10
    preroll = rng.choice((0, 3000, rng.randrange(10000)))
    play = (preroll + rng.randrange(1000, 10 ** 8)) * 10000 + rng.randrange(1000) * 10
    send = rng.randrange(10 ** 11) * 10
    flags, maxbr, pk = rng.randrange(4), rng.randrange(1000, 10 ** 7), rng.randrange(1 << 40)
    streams = []
    bitrates = []
    names = {}
    for i in range(rng.randint(1, 3)):
        kind = rng.choice(("video", "audio"))
        names[kind] = names.get(kind, 0) + 1
        grp = "%s[%d]" % (kind, names[kind])
        sid, off, enc = i + 1, rng.randrange(1 << 40), rng.randrange(2)
        if kind == "video":
            w, h, depth = pick_dim(rng), pick_dim(rng), rng.choice((8, 16, 24, 32))
            cc = rng.choice(("WMV1", "MP43", "WMV3"))
            xtra = rbytes(rng, rng.choice((0, 0, 4, 30)))
            d = pack("<IIBH", w, h, 2, 40 + len(xtra)) + pack("<IIIHH4sIIIII", 40 + len(xtra), w, h, 1, depth, cc.encode(), w * h, 1, 2, 3, 4) + xtra
            e = "video_header/"
            facts = {e + "width": w, e + "height": h, e + "format_data_size": 40 + len(xtra), e + "bmp_info/width": w,
                     e + "bmp_info/bpp": depth, e + "bmp_info/codec": cc, e + "bmp_info/xres": 1, e + "bmp_info/color_important": 4}
            g.m("width", w, group=grp)
            g.m("height", h, group=grp)
            g.m("bits_per_pixel", depth, group=grp)
        else:
            codec, ch, rate, bits = rng.choice((0x161, 0x160, 0x55)), rng.randint(1, 6), rng.choice((22050, 44100, 48000)), rng.choice((8, 16, 24))
            br, ba = rng.randrange(1 << 20), rng.randrange(1 << 16)
            xtra = rbytes(rng, rng.choice((0, 10, 20)))
            d = pack("<HHIIHHH", codec, ch, rate, br, ba, bits, len(xtra)) + xtra
            e = "audio_header/"
            facts = {e + "twocc": codec, e + "channels": ch, e + "sample_rate": rate, e + "bit_rate": br, e + "block_align": ba,
                     e + "bits_per_sample": bits, e + "codec_specific_size": len(xtra)}
            g.m("nb_channel", ch, group=grp)
            g.m("sample_rate", rate, group=grp)
            g.m("bits_per_sample", bits, group=grp)
        ec = rbytes(rng, rng.choice((0, 8)))
        facts.update({"time_offset": off, "data_len": len(d), "error_correct_len": len(ec), "stream_index": sid, "encrypted": bool(enc),
                      "type": ASF_VIDEO if kind == "video" else ASF_AUDIO, "error_correction": fid})
        streams.append(("stream_prop[]", guid_bytes(facts["type"]) + guid_bytes(fid) + pack("<QIIHI", off, len(d), len(ec), sid | enc << 15, 0)
                        + d + ec, facts))
        if rng.random() < .8:
            bitrates.append((sid, rng.randrange(1000, 10 ** 6), grp))
    objs += streams
    if bitrates:
        rng.shuffle(bitrates)
        facts = {"count": len(bitrates)}
        d = pack("<H", len(bitrates))
        for i, (sid, br, grp) in enumerate(bitrates):
            d += pack("<HI", sid, br)
            facts["bit_rate[%d]/stream_index" % i] = sid
            facts["bit_rate[%d]/avg_bitrate" % i] = br
            g.m("bit_rate", br, group=grp)
        objs.append(("bit_rates", d, facts))
    if rng.random() < .7:
        vals = [utext() if rng.random() < .7 else "" for _ in range(5)]
        raw = [utf16(v) if v else rng.choice((b"", b"")) for v in vals]
        facts = {}
        for i, (nm, v) in enumerate(zip(("title", "author", "copyright", "xxx", "yyy"), vals)):
            facts["size[%d]" % i] = len(raw[i])
            if v:
                facts[nm] = v
                if i < 3:
                    g.m(nm, v)
        objs.append(("metadata", pack("<5H", *map(len, raw)) + b"".join(raw), facts))
    comments = []
    if flags & 2:
        comments.append("Is seekable")
    if rng.random() < .7:
        items = []
        for key, meta in (("WM/AlbumTitle", "album"), ("WM/TrackNumber", "track_number"), ("WMFSDKVersion", None), ("Zork", "comment"),
                          ("Flag", "comment"), ("Big", "comment"), ("Word", "comment"), ("Blob", None)):
            if rng.random() < .6:
                items.append((key, meta))
        rng.shuffle(items)
        d = pack("<H", len(items))
        facts = {"count": len(items)}
        for i, (key, meta) in enumerate(items):
            e = "descriptor[%d]/" % i
            typ = {"WM/TrackNumber": 3, "Flag": 2, "Big": 4, "Word": 5, "Blob": 1}.get(key, 0)
            v = utext() if not typ else rng.randint(1, 99) if typ == 3 else 1 if typ == 2 else rng.randrange(1, 1 << 50) if typ == 4 \
                else rng.randrange(1, 1 << 16) if typ == 5 else rbytes(rng, rng.randint(1, 50))
            raw = utf16(v) if not typ else pack({2: "<I", 3: "<I", 4: "<Q", 5: "<H"}[typ], v) if typ != 1 else v
            k = utf16(key)
            d += pack("<H", len(k)) + k + pack("<HH", typ, len(raw)) + raw
            facts.update({e + "name": key, e + "type": typ, e + "value_length": len(raw)})
            if typ != 1:
                facts[e + "value"] = v
            if meta == "comment":
                comments.append("%s=%s" % (key, v))
            elif meta:
                g.m(meta, v)
        objs.append(("ext_desc", d, facts))
    g.m("comment", *comments)
    if rng.random() < .6:
        n = rng.randint(1, 3)
        d = guid_bytes(fid) + pack("<I", n)
        facts = {"count": n}
        for i in range(n):
            typ, nm, ds, inf = rng.randint(1, 2), utext(), utext() if rng.random() < .7 else "", rbytes(rng, rng.choice((0, 2, 9)))
            d += pack("<HH", typ, len(nm) + 1) + utf16(nm)
            d += pack("<H", len(ds) + 1 if ds else 0) + (utf16(ds) if ds else b"") + pack("<H", len(inf)) + inf
            e = "codec[%d]/" % i
            facts.update({e + "type": typ, e + "name": nm, e + "info_len": len(inf)})
            if ds:
                facts[e + "desc"] = ds
        objs.append(("codec_list", d, facts))
    if rng.random() < .5:
        x = rbytes(rng, rng.randint(1, 50))
        objs.append(("header_ext", guid_bytes(fid) + pack("<HI", 6, len(x)) + x, {"size": len(x)}))
    if rng.random() < .3:
        d = guid_bytes("D6E22A01-35DA-11D1-9034-00A0C90349BE") + pack("<HHH", 2, 1, 2)
        objs.append(("bitrate_mutex", d, {"nb_stream": 2, "stream[1]": 2, "exclusion_type": "D6E22A01-35DA-11D1-9034-00A0C90349BE"}))
    # file properties: the size is known at the end
    fp = lambda size: guid_bytes(fid) + pack("<QQQQQQIIII", size, ticks, pk, play, send, preroll, flags, 100, 200, maxbr)
    facts = {"creation_date": created, "pckt_count": pk, "play_duration": TD(microseconds=play // 10), "send_duration": TD(microseconds=send // 10),
             "preroll": TD(milliseconds=preroll), "broadcast": bool(flags & 1), "seekable": bool(flags & 2), "min_pckt_size": 100,
             "max_pckt_size": 200, "max_bitrate": maxbr, "guid": fid}
    objs.append(("file_prop", fp, facts))
    g.m("creation_date", created)
    g.m("duration", TD(microseconds=play // 10) - TD(milliseconds=preroll))
    g.m("bit_rate", maxbr)
    rng.shuffle(objs)
    # stream_prop[] keep their order
    it = iter(streams)
    objs = [next(it) if o[0] == "stream_prop[]" else o for o in objs]
    payload = rbytes(rng, rng.randint(1, 2000))
    out = [("data", guid_bytes(fid) + pack("<QH", pk, 0x101) + payload, {"packet_count": pk, "file_id": fid})]
    if rng.random() < .5:
        ent = [(rng.randrange(1 << 32), rng.randrange(1 << 16)) for _ in range(rng.randint(1, 9))]
        facts = {"max_pckt_count": 7, "entry_count": len(ent), "entry_interval": TD(seconds=1)}
        for i, (a, b) in enumerate(ent):
            facts["entry[%d]/pckt_number" % i] = a
            facts["entry[%d]/pckt_count" % i] = b
        out.append(("simple_index", guid_bytes(fid) + pack("<QII", 10 ** 7, 7, len(ent)) + b"".join(pack("<IH", *e) for e in ent), facts))
    size = 30 + sum(24 + len(d if isinstance(d, bytes) else d(0)) for _, d, _ in objs)
    total = size + sum(24 + len(d) for _, d, _ in out)
    body = guid_bytes(ASF["header"]) + pack("<QIH", size, len(objs), 0x201)
    g.fs("header/", size=size, guid=ASF["header"])
    g.at("header", 0, size)
    g.f("header/content/obj_count", len(objs))
    seen = {}
    for where, lst in (("header/content/", objs), ("", out)):
        for name, d, facts in lst:
            if callable(d):
                d = d(total)
                facts["file_size"] = total
            p = where + name
            if name.endswith("[]"):
                p = "%s[%d]" % (p[:-2], seen.get(name, 0))
                seen[name] = seen.get(name, 0) + 1
            g.at(p, len(body), 24 + len(d))
            g.fs(p + "/", size=24 + len(d), guid=ASF[name])
            for k, v in facts.items():
                g.f(p + "/content/" + k, v)
            body += guid_bytes(ASF[name]) + pack("<Q", 24 + len(d)) + d
    g.at("data/content/data", body.index(payload), len(payload)) if len(payload) > 20 else None
    g.data = body
    g.size = total
    g.description = "Window Media Video (wmv)" if "video" in names else "Window Media Audio (wma)"
    return g


# ------------------------------------------------------ RealMedia, RealAudio

@gen("media")
def realmedia(rng):
    g = G("realmedia", "real_media")
    texts = Texts(rng)

    def p8(t):
        t = t.encode("latin1")[:255]
        return bytes([len(t)]) + t

    def p16(t):
        return pack(">H", len(t)) + t.encode("latin1")

    def lat():
        return texts() + rng.choice(("", " \xe9\xdf"))
    chunks = []
    v = [rng.randrange(1, 1 << 31) for _ in range(9)]
    v[0], v[1] = rng.randrange(1000, 10 ** 7), rng.randrange(1000, 10 ** 6)
    v[5] = rng.randrange(1000, 10 ** 8)
    fl, ns = rng.randrange(8), rng.randint(0, 3)
    names = ("max_bit_rate", "avg_bit_rate", "max_pkt_size", "avg_pkt_size", "num_pkts", "duration", "preroll", "index_offset", "data_offset")
    facts = dict(zip(names, v), stream_count=ns, is_live=bool(fl & 4), is_perfect_play=bool(fl & 2), is_saveable=bool(fl & 1))
    chunks.append((b"PROP", "file_prop", pack(">9IHH", *v, ns, fl), facts))
    g.m("bit_rate", v[1])
    g.m("duration", TD(milliseconds=v[5]))
    comments = []
    if rng.random() < .8:
        t = [lat() if rng.random() < .8 else "" for _ in range(4)]
        chunks.append((b"CONT", "content_desc", b"".join(map(p16, t)), dict(zip(("title", "author", "copyright", "comment"), t))))
        for k, x in zip(("title", "author", "copyright"), t):
            if x:
                g.m(k, x)
        if t[3]:
            comments.append(t[3])
    prod = []
    for i in range(ns):
        v = [i] + [rng.randrange(1, 1 << 31) for _ in range(7)]
        v[2], v[7] = rng.randrange(1000, 10 ** 6), rng.randrange(1000, 10 ** 8)
        desc, logical = lat(), i and rng.random() < .4
        mime = "logical-fileinfo" if logical else rng.choice(("video/x-pn-realvideo", "audio/x-pn-realaudio"))
        facts = dict(zip(("stream_number", "max_bit_rate", "avg_bit_rate", "max_pkt_size", "avg_pkt_size", "stream_start", "preroll", "duration"), v))
        facts.update(desc=desc, mime_type=mime)
        if logical:
            k = rng.randint(0, 3)
            nr = rng.randint(0, 3)
            x = pack(">HH", 0, k)
            for nm in ("physical_stream", "data_offset"):
                for j in range(k):
                    y = rng.randrange(1 << 16)
                    x += pack(">H", y)
                    facts["file_info/%s[%d]" % (nm, j)] = y
            x += pack(">H", nr)
            for j in range(nr):
                y = rng.randrange(1 << 16)
                x += pack(">H", y)
                facts["file_info/rule[%d]" % j] = y
            props = [(n, lat()) for n in rng.sample(("Generated By", "Description", "Zork"), rng.randint(0, 3))]
            x += pack(">H", len(props))
            for j, (n, val) in enumerate(props):
                pr = pack(">H", 0) + p8(n) + pack(">I", 2) + p16(val)
                x += pack(">I", 4 + len(pr)) + pr
                e = "file_info/prop[%d]/" % j
                facts.update({e + "name": n, e + "value": val, e + "type": 2, e + "size": 4 + len(pr)})
                if n == "Generated By":
                    prod.append(val)
                elif n == "Description":
                    comments.append(val)
            spec = pack(">I", 4 + len(x)) + x
            facts["file_info/size"] = len(spec)
        else:
            spec = rbytes(rng, rng.choice((0, 0, 5, 40)))
        grp = "stream[%d]" % i
        if not logical:
            g.m("bit_rate", v[2], group=grp)
            g.m("duration", TD(milliseconds=v[7]), group=grp)
            g.m("mime_type", mime, group=grp)
        g.m("title", desc, group=grp)
        g.m("comment", "Start: %d" % v[5], group=grp)
        facts["specific_size"] = len(spec)
        chunks.append((b"MDPR", "stream_prop[%d]" % i, pack(">H7I", *v) + p8(desc) + p8(mime) + pack(">I", len(spec)) + spec, facts))
    if prod:
        g.m("producer", *prod)
    if comments:
        g.m("comment", *comments)
    for i in range(rng.choice((0, 0, 1, 2))):
        chunks.append((b"ZZZ" + bytes([65 + i]), "chunk[%d]" % i, rbytes(rng, rng.randint(1, 20)), {}))
    for i in range(rng.randint(1, 2)):
        chunks.append((b"DATA", "data[%d]" % i, rbytes(rng, rng.randint(8, 500)), {}))
    if rng.random() < .5:
        chunks.append((b"INDX", "file_index[0]", rbytes(rng, rng.randint(8, 100)), {}))
    out = b".RMF" + pack(">IHII", 18, 1, 0, len(chunks))
    g.fs("header/", size=18, version=1, filever=0, numheaders=len(chunks))
    for tag, name, d, facts in chunks:
        g.at(name, len(out), 10 + len(d))
        g.fs(name + "/", tag=tag.decode(), size=10 + len(d))
        for k, x in facts.items():
            g.f(name + "/" + k, x)
        out += tag + pack(">IH", 10 + len(d), 0) + d
    g.data = out
    return g


@gen("media")
def realaudio(rng):
    g = G("realaudio", "real_audio")
    texts = Texts(rng)

    def p8(t):
        t = t.encode("latin1")[:255]
        return bytes([len(t)]) + t
    t = [texts() + rng.choice(("", "\xe9")) if rng.random() < .8 else "" for _ in range(4)]
    meta = b"".join(map(p8, t))
    for k, x in zip(("title", "author", "copyright", "comment"), t):
        g.f("metadata/" + k, x)
        if x:
            g.m(k, x)
    audio = rbytes(rng, rng.randint(1000, 9000))
    if rng.random() < .5:
        fourcc = "lpcJ"
        head = rbytes(rng, 10) + pack(">I", len(audio)) + meta + b"\0" + p8(fourcc)
        out = b".ra\xfd" + pack(">HH", 3, len(head)) + head
        g.fs("", version=3, header_size=len(head), data_size=len(audio), FourCC=fourcc)
        g.description = "RealAudio v3 file, 'lpcJ' codec"
        g.m("sample_rate", 8000)
        g.m("nb_channel", 1)
        g.m("bit_rate", 8000)
        g.m("duration", TD(seconds=len(audio) * 8 / 8000))
    else:
        fourcc = rng.choice(("28_8", "cook"))
        rate, ch, bits = rng.choice((8000, 22050, 44100)), rng.randint(1, 2), 16
        v = dict(codec_flavor=rng.randrange(9), coded_frame_size=rng.randrange(1 << 16), subpacketh=7, frame_size=rng.randrange(1 << 16),
                 sub_packet_size=rng.randrange(1 << 16), sample_rate=rate, sample_size=bits, channels=ch)
        mid = pack(">HI", v["codec_flavor"], v["coded_frame_size"]) + rbytes(rng, 12) + pack(
            ">HHHHHHHH", 7, v["frame_size"], v["sub_packet_size"], 0, rate, 0, bits, ch) + p8("Int4") + p8(fourcc) + bytes(3) + meta
        total = 4 + 2 + 2 + 4 + 4 + 2 + 4 + len(mid)
        out = b".ra\xfd" + pack(">HH4sIHI", 4, 0, b".ra4", total + len(audio) - 40, 4, total - 16) + mid
        g.fs("", version=4, version2=4, ra4sig=".ra4", filesize=total + len(audio) - 40, headersize=total - 16, FourCC=fourcc, **v)
        g.m("sample_rate", rate)
        g.m("nb_channel", ch)
        if fourcc == "28_8":
            g.m("bit_rate", 15200)
            g.m("duration", TD(seconds=len(audio) * 8 / 15200))
    g.m("compression", fourcc)
    g.m("bits_per_sample", 16)
    g.at("audio_data", len(out), len(audio))
    g.data = out + audio
    return g


# ----------------------------------------------------------------- MPEG-TS

@gen("media")
def mpeg_ts(rng):
    g = G("mpeg_ts", "mpeg_ts")
    m2ts = rng.random() < .4
    out = b""
    n = rng.randint(5, 30)
    if rng.random() < .3 and not m2ts:
        cut = rng.choice((1, 2, 3, 5, 20, rng.randint(9, 100)))
        out += bytes(cut)
        g.use("first packet incomplete")
        g.at("incomplete_packet[0]", 0, cut)
    for i in range(n):
        p = "packet[%d]/" % i
        start = len(out)
        if m2ts:
            c, ats = rng.randrange(4), rng.randrange(1 << 30)
            b = pack(">I", c << 30 | ats)
            while b"\x47" in b:
                ats = rng.randrange(1 << 30)
                b = pack(">I", c << 30 | ats)
            g.fs(p, c=c, ats=ats)
            out += b
        pid = rng.choice((0, 1, 0x1fff, 0x100, 0x44, 0x1abc))
        pus, prio, scr, cnt = rng.randrange(2), rng.randrange(2), rng.randrange(4), rng.randrange(16)
        ad, pl = rng.choice(((0, 1), (0, 1), (1, 1), (1, 0))) if i > 2 else (0, 1)
        if i < 3:
            pid, cnt = 0x100, rng.randrange(4)
        g.fs(p, sync=0x47, has_error=False, payload_unit_start=bool(pus), priority=bool(prio), pid=pid, scrambling_control=scr,
             has_adaptation=bool(ad), has_payload=bool(pl), counter=cnt)
        pk = pack(">BHB", 0x47, pus << 14 | prio << 13 | pid, scr << 6 | ad << 5 | pl << 4 | cnt)
        if ad:
            a = p + "adaptation_field/"
            fl = rng.randrange(256) & 0xfc
            d = bytes([fl])
            g.fs(a, **{k: bool(fl >> 7 - j & 1) for j, k in enumerate(("discontinuity_indicator", "random_access_indicator",
                       "es_prio_indicator", "has_pcr", "has_opcr", "has_splice_point", "private_data", "has_extension"))})
            for bit, nm in ((0x10, "pcr"), (8, "opcr")):
                if fl & bit:
                    base, ext = rng.randrange(1 << 33), rng.randrange(300)
                    d += (base << 15 | 0x3f << 9 | ext).to_bytes(6, "big")
                    g.fs(a, **{nm + "_base": base, nm + "_ext": ext})
            if fl & 4:
                v = rng.randrange(256)
                d += bytes([v])
                g.f(a + "splice_countdown", v)
            if not pl:
                d += b"\xff" * (183 - len(d))
            elif rng.random() < .2:
                d = b""
                g.facts = [x for x in g.facts if not x[1].startswith(a)]
            else:
                d += b"\xff" * rng.randrange(100)
            g.f(a + "length", len(d))
            g.at(a[:-1], len(out) + 4, 1 + len(d))
            pk += bytes([len(d)]) + d
        if pl:
            k = 188 - len(pk)
            g.at(p + "payload", len(out) + len(pk), k)
            pk += rbytes(rng, k).replace(b"G", b"H")
        g.at(p[:-1], start, len(out) + len(pk) - start)
        out += pk
    g.count("packet", n)
    g.data = out
    return g


# -------------------------------------------------------------- MP4, MOV

def atom(tag, data, rng=None, last=False):
    """an atom; rng: the size is sometimes written on 64 bits"""
    if last:
        return pack(">I", 0) + tag + data
    if rng is not None and rng.random() < .1:
        return pack(">I", 1) + tag + pack(">Q", 16 + len(data)) + data
    return pack(">I", 8 + len(data)) + tag + data


class Mp4:
    """writer of atoms with their facts"""

    def __init__(self, g, rng):
        self.g = g
        self.rng = rng

    def box(self, tag, data, facts=(), name=None):
        """atom with facts relative to the atom"""
        return (tag, data, list(facts), name)

    def join(self, boxes, last=False, top=False):
        """(bytes, facts) of a list of atoms"""
        out, facts = b"", []
        for i, (tag, data, sub, name) in enumerate(boxes):
            a = atom(tag, data, None if top and not i else self.rng, last and i == len(boxes) - 1)
            facts.append(("value", "atom[%u]/tag" % i, tag.decode("latin-1")))
            facts.append(("offset", "atom[%u]" % i, len(out)))
            facts += [(k, "atom[%u]/%s" % (i, p),
                       v if k != "offset" else v + len(out) + len(a) - len(data)) for k, p, v in sub]
            out += a
        facts.append(("count", "atom", len(boxes)))
        return out, facts

    def container(self, tag, name, boxes, before=b"", bfacts=()):
        data, facts = self.join(boxes)
        facts = [(k, "%s/%s" % (name, p), v + len(before) if k == "offset" else v) for k, p, v in facts]
        facts.append(("offset", name, 0))
        return (tag, before + data, facts + [("value", "%s/%s" % (name, p), v) for p, v in bfacts], None)

    def leaf(self, tag, name, data, values=(), more=()):
        facts = [("value", "%s/%s" % (name, p), v) for p, v in values]
        facts += [(k, "%s/%s" % (name, p), v) for k, p, v in more]
        facts.append(("offset", name, 0))
        return (tag, data, facts, None)


def fixed(rng, a, b, signed=True):
    """a fixed point number: (integer, value)"""
    r = rng.random()
    top = 1 << (a + b)
    if r < .3:
        n = 0
    elif r < .6:
        n = 1 << b
    elif r < .8 and signed:
        n = -rng.randint(1, 1 << (a + b - 1))
    else:
        n = rng.randrange(1 << (a + b - 1))
    return n % top, n / (1 << b)


def mp4_dates(rng, v1):
    c, m = [rng.choice((0, rng.randint(2082844800, 3786825600), rng.randint(2082844800, 3786825600)))
            for _ in range(2)]
    if v1 and rng.random() < .3:
        m = rng.randint(1 << 32, 6000000000)
    return c, m


def mac_date(n):
    return EPOCH_MAC + TD(seconds=n)


MATRIX = (("a", 16, 16), ("b", 16, 16), ("u", 2, 30), ("c", 16, 16), ("d", 16, 16), ("v", 2, 30), ("x", 16, 16),
          ("y", 16, 16), ("w", 2, 30))


def mp4_matrix(rng):
    out, values = b"", []
    for n, a, b in MATRIX:
        raw, val = fixed(rng, a, b)
        out += pack(">I", raw)
        values.append(("geom_" + n, val))
    return out, values


def full(version, flags=0):
    return bytes([version]) + flags.to_bytes(3, "big")


def mp4_sample_entry(rng, w, kind, mp4, i):
    """(bytes, facts) of a sample description"""
    facts = []
    head = bytes(6) + pack(">H", rng.randint(1, 3))
    values = []
    if kind == b"soun":
        fmt = rng.choice((b"mp4a", b"mp4a", b"sowt", b"alac"))
        ch, bits, rate = rng.randint(1, 8), rng.choice((8, 16, 24)), rng.choice((8000, 22050, 44100, 48000))
        body = bytes(8) + pack(">HHHHI", ch, bits, 0, 0, rate << 16)
        values = [("channels", ch), ("samplesize", bits), ("samplerate", float(rate))]
    elif kind == b"vide":
        fmt = rng.choice((b"avc1", b"mp4v", b"jpeg", b"rle "))
        wd, ht, fr, depth = pick_dim(rng), pick_dim(rng), rng.randint(1, 3), rng.choice((8, 24, 32))
        hr, hv = fixed(rng, 16, 16, False)
        name = word(rng, 0, 31).encode()
        body = pack(">HH4sIIHHIIIHB31sHh", 0, 0, b"haho", rng.randrange(1024), rng.randrange(1024), wd, ht, hr,
                    72 << 16, 0, fr, len(name), name, depth, -1)
        values = [("width", wd), ("height", ht), ("horizontal_resolution", hv), ("vertical resolution", 72.0),
                  ("frame_count", fr), ("compressor_name_length", len(name)), ("compressor_name", name.decode()),
                  ("depth", depth), ("unknown", -1)]
    else:
        fmt = b"rtp "
        body = b""
    values.append(("format", fmt))
    if fmt in (b"avc1", b"mp4v", b"mp4a"):
        boxes = []
        if fmt == b"avc1":
            profile = rng.choice((66, 77, 100))
            sps = [word(rng, 1, 20).encode() for _ in range(rng.randint(0, 3))]
            pps = [word(rng, 1, 20).encode() for _ in range(rng.randint(0, 3))]
            d = bytes([1, profile, rng.randrange(256), rng.randrange(256), 0xFC | 3, 0xE0 | len(sps)])
            d += b"".join(pack(">H", len(s)) + s for s in sps) + bytes([len(pps)])
            d += b"".join(pack(">H", len(s)) + s for s in pps)
            v = [("AVCConfig/AVCProfileIndication", profile), ("AVCConfig/lengthSizeMinusOne", 3),
                 ("AVCConfig/numOfSequenceParameterSets", len(sps)),
                 ("AVCConfig/numOfPictureParameterSets", len(pps))]
            v += [("AVCConfig/sequenceParameterSetNALUnit[%u]" % j, s.decode("latin-1")) for j, s in enumerate(sps)]
            v += [("AVCConfig/pictureParameterSetNALUnit[%u]" % j, s.decode("latin-1")) for j, s in enumerate(pps)]
            boxes.append(w.leaf(b"avcC", "avcC", d, v))
        else:
            obj, stream, maxb, avgb = (rng.choice((0x20, 0x40, 0x69)), rng.choice((4, 5)), rng.randrange(1 << 31),
                                       rng.randrange(1 << 31))
            specific = rbytes(rng, rng.choice((2, 5, 200)))

            def descr(tag, data):
                n = len(data)
                size = bytes([n & 0x7F]) if n < 128 and rng.random() < .5 else \
                    bytes([0x80, 0x80, 0x80 | n >> 7, n & 0x7F]) if rng.random() < .5 else \
                    bytes([0x80 | n >> 7, n & 0x7F])
                return bytes([tag]) + size + data
            dc = descr(4, bytes([obj, stream << 2]) + (1234).to_bytes(3, "big") + pack(">II", maxb, avgb) +
                       descr(5, specific))
            es_id = rng.randrange(65536)
            url = word(rng).encode() if rng.random() < .3 else None
            dep = rng.randrange(65536) if rng.random() < .3 else None
            es = pack(">HB", es_id, (dep is not None) << 7 | (url is not None) << 6 | 11)
            v = [("ES/ES_ID", es_id), ("ES/streamPriority", 11),
                 ("ES/decConfigDescr/objectTypeIndication", obj), ("ES/decConfigDescr/streamType", stream),
                 ("ES/decConfigDescr/bufferSizeDB", 1234), ("ES/decConfigDescr/maxBitrate", maxb),
                 ("ES/decConfigDescr/avgBitrate", avgb), ("ES/decConfigDescr/descr[0]/data", specific),
                 ("ES/decConfigDescr/descr[0]/sizeOfInstance", len(specific)), ("ES/descr[0]/tag", 6)]
            if dep is not None:
                es += pack(">H", dep)
                v.append(("ES/dependsOn_ES_ID", dep))
            if url is not None:
                es += bytes([len(url)]) + url
                v.append(("ES/URL", url.decode()))
            boxes.append(w.leaf(b"esds", "esds", full(0) + descr(3, es + dc + descr(6, b"\2")), v))
        if rng.random() < .5:
            br = [rng.randrange(1 << 32) for _ in range(3)]
            boxes.append(w.leaf(b"btrt", "btrt", pack(">III", *br),
                                zip(("bufferSizeDB", "maxBitrate", "avgBitrate"), br)))
        rng.shuffle(boxes)
        extra, sub = w.join(boxes)
        facts += [(k, p, v + 16 + len(body) if k == "offset" else v) for k, p, v in sub]
    else:
        extra = rbytes(rng, rng.choice((0, 0, 5)))
        if extra:
            values.append(("extra_data", extra))
    data = pack(">I", 16 + len(body) + len(extra)) + fmt + head + body + extra
    values.append(("size", len(data)))
    return data, facts + [("value", p, v) for p, v in values]


def mp4_table(rng, w):
    """sample tables"""
    boxes = []

    def arr(names, n, fmt="I", signed=()):
        out, vals = b"", []
        for i in range(n):
            for nm in names:
                x = rng.randrange(1 << 8 * struct.calcsize(">" + fmt))
                out += pack(">" + fmt, x)
                vals.append(("%s[%u]" % (nm, i), x))
        return out, vals

    def table(tag, names, fmt="I"):
        n = rng.choice((0, 1, 2, 7))
        out, vals = arr(names, n, fmt)
        boxes.append(w.leaf(tag, tag.decode(), full(0) + pack(">I", n) + out, vals + [("count", n)]))
    if rng.random() < .8:
        table(b"stts", ("sample_count", "sample_delta"))
    if rng.random() < .4:
        n, v1 = rng.choice((0, 1, 5)), rng.randrange(2)
        out, vals = b"", [("count", n)]
        for i in range(n):
            a, b = rng.randrange(1 << 32), rng.randrange(1 << 32) - (v1 << 31)
            out += pack(">Ii" if v1 else ">II", a, b)
            vals += [("sample_count[%u]" % i, a), ("sample_offset[%u]" % i, b)]
        boxes.append(w.leaf(b"ctts", "ctts", full(v1) + pack(">I", n) + out, vals))
    if rng.random() < .6:
        table(b"stsc", ("first_chunk", "samples_per_chunk", "sample_description_index"))
    if rng.random() < .5:
        table(b"stco", ("chunk_offset",))
    elif rng.random() < .5:
        table(b"co64", ("chunk_offset",), "Q")
    if rng.random() < .4:
        table(b"stss", ("sample_number",))
    r = rng.random()
    if r < .3:
        n, u = rng.randrange(1000), rng.randint(1, 1 << 31)
        boxes.append(w.leaf(b"stsz", "stsz", full(0) + pack(">II", u, n), [("uniform_size", u), ("count", n)]))
    elif r < .6:
        n = rng.choice((0, 1, 9))
        out, vals = arr(("sample_size",), n)
        boxes.append(w.leaf(b"stsz", "stsz", full(0) + pack(">II", 0, n) + out,
                            vals + [("uniform_size", 0), ("count", n)]))
    elif r < .9:
        n, bits = rng.choice((1, 2, 3, 9)), rng.choice((4, 8, 16))
        xs = [rng.randrange(1 << bits) for _ in range(n)]
        s = "".join(format(x, "0%ub" % bits) for x in xs)
        s += "0" * (-len(s) % 8)
        boxes.append(w.leaf(b"stz2", "stz2", full(0) + bytes([0, 0, 0, bits]) + pack(">I", n) +
                            int(s, 2).to_bytes(len(s) // 8, "big"),
                            [("sample_size[%u]" % i, x) for i, x in enumerate(xs)] +
                            [("field_size", bits), ("count", n)]))
    rng.shuffle(boxes)
    return boxes


def mp4_lang(rng):
    if rng.random() < .3:
        code, text = rng.choice(((0, "English"), (1, "French"), (11, "Japanese"), (138, "JavaneseRom")))
        return pack(">H", code), text
    t = word(rng, 3, 3, "abcdefghijklmnopqrstuvwxyz")
    n = 0
    for c in t:
        n = n << 5 | ord(c) - 0x60
    return pack(">H", n), t


def mp4_track(rng, w, g, mp4, num, texts):
    kind = rng.choice((b"vide", b"vide", b"soun", b"soun", b"hint"))
    v1 = rng.random() < .3
    c, m = mp4_dates(rng, v1)
    dur = rng.randrange(1 << 32)
    flags = rng.randrange(16)
    layer, group = rng.randint(-5, 5), rng.randint(0, 9)
    vol, volv = fixed(rng, 8, 8)
    wd, ht = rng.choice(((0, 0), (pick_dim(rng), pick_dim(rng)), (pick_dim(rng), 0)))
    frac = rng.choice((0, 0x8000)) if wd and ht else 0
    mat, vals = mp4_matrix(rng)
    f = "Q" if v1 else "I"
    data = full(int(v1), flags) + pack(">" + f + f + "II" + f, c, m, num, 0, dur) + bytes(8) + \
        pack(">hhHH", layer, group, vol, 0) + mat + pack(">II", wd << 16 | frac, ht << 16)
    if wd and ht:
        g.dims.append((wd, ht))
    boxes = [w.leaf(b"tkhd", "track_hdr", data, vals + [
        ("version", int(v1)), ("is_in_poster", bool(flags & 8)), ("is_in_preview", bool(flags & 4)),
        ("is_in_movie", bool(flags & 2)), ("is_enabled", bool(flags & 1)), ("creation_date", mac_date(c)),
        ("lastmod_date", mac_date(m)), ("track_id", num), ("duration", dur), ("video_layer", layer),
        ("alternate_group", group), ("volume", volv), ("frame_size_width", wd + frac / 65536),
        ("frame_size_height", float(ht))])]
    if rng.random() < .3:
        refs = [rng.randint(1, 9) for _ in range(rng.randint(1, 4))]
        tag = rng.choice((b"hint", b"cdsc"))
        boxes.append(w.container(b"tref", "tref", [w.leaf(tag, tag.decode(), pack(">%uI" % len(refs), *refs), [
            ("track_id[%u]" % i, x) for i, x in enumerate(refs)])]))
    if rng.random() < .5:
        ev1 = rng.random() < .3
        n = rng.randint(1, 4)
        d, v = b"", [("count", n), ("version", int(ev1))]
        for i in range(n):
            a, b = rng.randrange(1 << 32), rng.choice((-1, 0, rng.randrange(1 << 31)))
            sp, spv = fixed(rng, 16, 16)
            d += pack(">QqI" if ev1 else ">IiI", a, b, sp)
            v += [("duration[%u]" % i, a), ("time[%u]" % i, b), ("play_speed[%u]" % i, spv)]
        boxes.append(w.container(b"edts", "edts", [w.leaf(b"elst", "elst", full(int(ev1)) + pack(">I", n) + d, v)]))
    if not mp4 and rng.random() < .3:
        v = [rng.randrange(1 << 32) for _ in range(4)]
        boxes.append(w.leaf(b"load", "load", pack(">IIII", *v), zip(("start", "length", "flags", "hints"), v)))
    # media
    mv1 = rng.random() < .3
    c, m = mp4_dates(rng, mv1)
    scale, mdur = rng.choice((600, 1000, 44100, 90000)), rng.randrange(1 << 32)
    lang, langv = mp4_lang(rng)
    f = "Q" if mv1 else "I"
    qual = rng.randint(-1, 100)
    media = [w.leaf(b"mdhd", "media_hdr", full(int(mv1)) + pack(">" + f + f + "I" + f, c, m, scale, mdur) + lang +
                    pack(">h", qual), [
        ("creation_date", mac_date(c)), ("lastmod_date", mac_date(m)), ("time_scale", scale), ("duration", mdur),
        ("language", langv), ("quality", qual)])]
    name = texts()
    nm = name.encode() + b"\0" if mp4 else bytes([len(name)]) + name.encode()
    media.append(w.leaf(b"hdlr", "hdlr", full(0) + (bytes(4) if mp4 else b"mhlr") + kind +
                        (bytes(4) if mp4 else b"appl") + pack(">II", 0, 0) + nm,
                        [("subtype", kind.decode()), ("name", name)]))
    minf = []
    if kind == b"vide":
        gm = rng.choice(((0, "Copy"), (0x40, "Dither copy"), (0x24, "Transparent"), (0x777, "0x777")))
        op = [rng.randrange(65536) for _ in range(3)]
        minf.append(w.leaf(b"vmhd", "vmhd", full(0, 1) + pack(">HHHH", gm[0], *op), [
            ("graphicsmode", gm[0]), ("op_red", op[0]), ("op_green", op[1]), ("op_blue", op[2])],
            [("display", "graphicsmode", gm[1])]))
    elif kind == b"soun":
        bal, balv = fixed(rng, 8, 8)
        minf.append(w.leaf(b"smhd", "smhd", full(0) + pack(">HH", bal, 0), [("balance", balv)]))
    else:
        v = (rng.randrange(65536), rng.randrange(65536), rng.randrange(1 << 32), rng.randrange(1 << 32))
        minf.append(w.leaf(b"hmhd", "hmhd", full(0) + pack(">HHIII", *v, 0), zip(
            ("max_pdu_size", "avg_pdu_size", "max_bit_rate", "avg_bit_rate"), v)))
    refs = []
    for _ in range(rng.randint(0, 3)):
        r = rng.randrange(3)
        if r == 0:
            refs.append(w.leaf(b"url ", "url", full(0, 1), [("is_same_file", True)]))
        elif r == 1:
            u = "file:///" + word(rng)
            refs.append(w.leaf(b"url ", "url", full(0) + u.encode() + b"\0",
                               [("is_same_file", False), ("location", u)]))
        else:
            u, n = "urn:" + word(rng), word(rng)
            refs.append(w.leaf(b"urn ", "urn", full(0) + n.encode() + b"\0" + u.encode() + b"\0",
                               [("is_same_file", False), ("location", u), ("name", n)]))
    minf.append(w.container(b"dinf", "dinf", [w.container(
        b"dref", "dref", refs, full(0) + pack(">I", len(refs)), [("count", len(refs))])]))
    stbl = mp4_table(rng, w)
    n = rng.choice((1, 1, 1, 2, 3))
    out, facts = full(0) + pack(">I", n), [("value", "stsd/count", n), ("count", "stsd/sample_entry", n)]
    for i in range(n):
        d, sub = mp4_sample_entry(rng, w, kind, mp4, i)
        facts.append(("offset", "stsd/sample_entry[%u]" % i, len(out)))
        facts += [(k, "stsd/sample_entry[%u]/%s" % (i, p), v + len(out) if k == "offset" else v) for k, p, v in sub]
        out += d
    stbl.insert(rng.randint(0, len(stbl)), (b"stsd", out, facts, None))
    minf.append(w.container(b"stbl", "stbl", stbl))
    media.append(w.container(b"minf", "minf", minf))
    boxes.append(w.container(b"mdia", "media", media))
    return w.container(b"trak", "track", boxes)


def mp4_meta(rng, w, g, texts):
    """iTunes like metadata in udta"""
    tags = {b"\xa9nam": "name", b"\xa9ART": "artist", b"\xa9cmt": "comment", b"\xa9too": "encoder", b"covr": "cover",
            b"trkn": "trkn", b"tmpo": "tempo"}
    items = []
    for t in rng.sample(sorted(tags), rng.randint(1, len(tags))):
        payload = pack(">II", 1, 0) + texts().encode()
        items.append(w.container(t, tags[t], [w.leaf(b"data", "data", payload)]))
        tag, data, facts, _ = items[-1]
        items[-1] = (tag, data, [x for x in facts if not x[1].endswith("/data/data")] +
                     [("value", tags[t] + "/atom[0]/data", payload)], None)
    hdlr = w.leaf(b"hdlr", "hdlr", full(0) + bytes(4) + b"mdirappl" + bytes(8) + b"\0", [("subtype", "mdir")])
    ilst, facts = w.join(items)
    il = (b"ilst", ilst, [(k, "ilst/" + p, v) for k, p, v in facts], None)
    data, facts = w.join([hdlr, il])
    head = full(0)
    return (b"udta", *_meta(w, head, data, facts), None)


def _meta(w, head, data, facts):
    a = atom(b"meta", head + data)
    base = 8 + len(head)
    facts = [(k, "udta/atom[0]/meta/tags/" + p, v + base if k == "offset" else v) for k, p, v in facts]
    return a, facts


@gen("media")
def mp4(rng):
    g = G("mp4", "mov")
    g.dims = []
    w = Mp4(g, rng)
    texts = Texts(rng)
    is_mp4 = rng.random() < .6
    boxes = []
    if is_mp4:
        brands = rng.choice((("isom", "mp41"), ("mp42",), ("M4A ", "isom", "mp42"), ("qt  ", "avc1")))
        ver = rng.randrange(1 << 32)
        data = brands[0].encode() + pack(">I", ver) + "".join(brands[1:]).encode()
        boxes.append(w.leaf(b"ftyp", "file_type", data, [("brand", brands[0]), ("version", ver)] + [
            ("compat_brand[%u]" % i, b) for i, b in enumerate(brands[1:])]))
    elif rng.random() < .3:
        boxes.append(w.leaf(b"ftyp", "file_type", b"qt  " + bytes(4) + b"qt  ", [("brand", "qt  ")]))
    # movie
    v1 = rng.random() < .3
    c, m = mp4_dates(rng, v1)
    scale, dur = rng.choice((600, 1000, 44100, 90000)), rng.randrange(1 << 22)
    speed, speedv = fixed(rng, 16, 16)
    vol, volv = fixed(rng, 8, 8)
    mat, vals = mp4_matrix(rng)
    f = "Q" if v1 else "I"
    tail = [rng.randrange(1 << 32) for _ in range(7)]
    data = full(int(v1)) + pack(">" + f + f + "I" + f, c, m, scale, dur) + pack(">IH", speed, vol) + bytes(10) + \
        mat + pack(">7I", *tail)
    movie = [w.leaf(b"mvhd", "movie_hdr", data, vals + [
        ("creation_date", mac_date(c)), ("lastmod_date", mac_date(m)), ("time_scale", scale), ("duration", dur),
        ("play_speed", speedv), ("volume", volv)] + list(zip(
            ("preview_start", "preview_length", "still_poster", "sel_start", "sel_length", "current_time",
             "next_track_ID"), tail)))]
    for i in range(rng.randint(0, 3)):
        movie.append(mp4_track(rng, w, g, is_mp4, i + 1, texts))
    if rng.random() < .4:
        movie.append(mp4_meta(rng, w, g, texts))
    moov = w.container(b"moov", "movie", movie)
    rest = []
    raw = rbytes(rng, rng.randint(1, 60))
    rest.append((b"mdat", raw, [("value", "data", raw)], None))
    if rng.random() < .3:
        raw = bytes(rng.randint(1, 9))
        rest.append((b"free", raw, [("value", "data", raw)], None))
    if is_mp4 and rng.random() < .4:
        rest += mp4_fragment(rng, w)
    if is_mp4 and rng.random() < .3:
        rest.insert(0, moov)
        rng.shuffle(rest)
        boxes += rest
    else:
        boxes += [moov] + rest
    g.data, facts = w.join(boxes, rng.random() < .2, True)
    for k, p, v in facts:
        if k == "offset":
            g.at(p, v)
        else:
            g.facts.append((k, p, v))
    g.m("duration", near(dur / scale)) if dur else None
    com = []
    for t in ("Play speed: %.1f%%" % (speedv * 100), "User volume: %.1f%%" % (volv * 100)):
        com.append(t)
    g.m("comment", *com)
    if c:
        g.m("creation_date", mac_date(c))
    if m and mac_date(m).year < 2040:
        g.m("last_modification", mac_date(m))
    for key, i in (("width", 0), ("height", 1)):
        seen = []
        for d in g.dims:
            if d[i] not in seen:
                seen.append(d[i])
        g.m(key, *seen)
    g.use("mp4" if is_mp4 else "mov", "v1" if v1 else "v0")
    g.mime = "video/mp4" if is_mp4 else "video/quicktime"
    return g


def mp4_fragment(rng, w):
    boxes = []
    seq = rng.randrange(1 << 32)
    traf = []
    fl = rng.randrange(64)
    d, v = b"", []
    for bit, name, fmt in ((1, "base_data_offset", ">Q"), (2, "sample_description_index", ">I"),
                           (8, "default_sample_duration", ">I"), (16, "default_sample_size", ">I"),
                           (32, "default_sample_flags", ">I")):
        if fl & bit:
            x = rng.randrange(1 << 32)
            d += pack(fmt, x)
            v.append((name, x))
    fl &= ~4
    tid = rng.randint(1, 9)
    traf.append(w.leaf(b"tfhd", "tfgd", full(0, fl) + pack(">I", tid) + d, v + [("track_ID", tid), ("flags", fl)]))
    for _ in range(rng.randint(0, 2)):
        fl = rng.randrange(2) | rng.randrange(2) << 2 | rng.randrange(16) << 8
        n = rng.randint(0, 4)
        v1 = rng.randrange(2)
        d, v = pack(">I", n), [("sample_count", n), ("flags", fl)]
        for bit, name in ((1, "data_offset"), (4, "first_sample_flags")):
            if fl & bit:
                x = rng.randrange(1 << 31)
                d += pack(">I", x)
                v.append((name, x))
        if fl & 0xF00:
            for i in range(n):
                for bit, name in ((0x100, "duration"), (0x200, "size"), (0x400, "flags"),
                                  (0x800, "composition_time_offset")):
                    if fl & bit:
                        x = rng.randrange(1 << 32)
                        if v1 and bit == 0x800:
                            x -= 1 << 31
                        d += pack(">i" if x < 0 or v1 and bit == 0x800 else ">I", x)
                        v.append(("sample[%u]/sample_%s" % (i, name), x))
        else:
            d = pack(">I", 0) + d[4:]
            v[0] = ("sample_count", 0)
        traf.append(w.leaf(b"trun", "trun", full(v1, fl) + d, v))
    boxes.append(w.container(b"moof", "moof", [
        w.leaf(b"mfhd", "mfhd", full(0) + pack(">I", seq), [("sequence_number", seq)]),
        w.container(b"traf", "traf", traf)]))
    if rng.random() < .5:
        v1 = rng.randrange(2)
        ls = [rng.randrange(4) for _ in range(3)]
        n = rng.randint(1, 4)
        d = pack(">II", 0, 0)[:0]
        v = [("track_id", tid), ("number_of_entry", n)]
        v += list(zip(("length_size_of_traf_num", "length_size_of_trun_num", "length_size_of_sample_num"), ls))
        for i in range(n):
            a, b = rng.randrange(1 << 32), rng.randrange(1 << 32)
            d += pack(">QQ" if v1 else ">II", a, b)
            v += [("time[%u]" % i, a), ("moof_offset[%u]" % i, b)]
            for size, name in zip(ls, ("traf", "trun", "sample")):
                x = rng.randrange(1 << 8 * (size + 1))
                d += x.to_bytes(size + 1, "big")
                v.append(("%s_number[%u]" % (name, i), x))
        boxes.append(w.container(b"mfra", "mfra", [
            w.leaf(b"tfra", "tfra", full(v1) + pack(">III", tid, ls[0] << 4 | ls[1] << 2 | ls[2], n) + d, v),
            w.leaf(b"mfro", "mfro", full(0) + pack(">I", 1234), [("size", 1234)])]))
    if rng.random() < .4:
        v1 = rng.randrange(2)
        n = rng.randint(0, 4)
        ept, off = rng.randrange(1 << 32), rng.randrange(1 << 32)
        d = full(v1) + pack(">II", 1, 1000) + pack(">QQ" if v1 else ">II", ept, off) + pack(">HH", 0, n)
        v = [("earliest_presentation_time", ept), ("first_offset", off), ("reference_count", n), ("timescale", 1000)]
        for i in range(n):
            t, size, sd, sap, st, delta = (rng.randrange(2), rng.randrange(1 << 31), rng.randrange(1 << 32),
                                           rng.randrange(2), rng.randrange(8), rng.randrange(1 << 28))
            d += pack(">III", t << 31 | size, sd, sap << 31 | st << 28 | delta)
            v += [("reference[%u]/%s" % (i, k), x) for k, x in (
                ("reference_type", bool(t)), ("referenced_size", size), ("subsegment_duration", sd),
                ("starts_with_SAP", bool(sap)), ("SAP_type", st), ("SAP_delta_time", delta))]
        boxes.append(w.leaf(b"sidx", "sidx", d, v))
    return boxes
