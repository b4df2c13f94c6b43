"""Music modules: FastTracker 2 (XM), ScreamTracker 3 (S3M), PolyTracker (PTM), Amiga (MOD)."""
import math
import re

from vlib.gen import G, gen, pack, phrase, rbytes, word


def padded(text, n, fill=b"\0"):
    return text.encode("latin-1")[:n].ljust(n, fill)


def title(rng, n):
    return phrase(rng, 1, 4)[:n].strip()


# ---- XM ----

XM_EFFECT = {0: "Arppegio", 1: "Porta up", 2: "Porta down", 3: "Tone porta", 4: "Vibrato", 5: "Tone porta+Volume slide",
             6: "Vibrato+Volume slide", 7: "Tremolo", 8: "Set panning", 9: "Sample offset", 10: "Volume slide",
             11: "Position jump", 12: "Set volume", 13: "Pattern break", 15: "Set tempo/BPM", 16: "Set global volume",
             17: "Global volume slide", 21: "Set envelope position", 25: "Panning slide", 27: "Multi retrig note",
             29: "Tremor"}
XM_EXTENDED = {1: "Fine porta up", 2: "Fine porta down", 3: "Set gliss control", 4: "Set vibrato control", 5: "Set finetune",
               6: "Set loop begin/loop", 7: "Set tremolo control", 9: "Retrig note", 10: "Fine volume slide up",
               11: "Fine volume slide down", 12: "Note cut", 13: "Note delay", 14: "Pattern delay"}
XM_VOLUME = {6: "Volume slide down", 7: "Volume slide up", 8: "Fine volume slide down", 9: "Fine volume slide up",
             10: "Set vibrato speed", 11: "Vibrato", 12: "Set panning", 13: "Panning slide left", 14: "Panning slide right",
             15: "Tone porta"}


def xm_effect(rng):
    """(type, parameter, text)"""
    r = rng.random()
    if r < .3:
        e = rng.choice(tuple(XM_EXTENDED))
        n = rng.randrange(16)
        return 14, e << 4 | n, "%s %d" % (XM_EXTENDED[e], n)
    if r < .4:
        e = rng.choice((1, 2))
        return 33, e << 4 | rng.randrange(16), "Extra fine porta " + ("up" if e == 1 else "down")
    e = rng.choice(tuple(XM_EFFECT))
    return e, rng.randrange(256), XM_EFFECT[e]


def xm_volume(rng):
    if rng.random() < .5:
        v = rng.randint(0x10, 0x50)
        return v, "Volume %d" % (v - 0x10)
    v = rng.randint(0x60, 0xff)
    return v, XM_VOLUME[v >> 4]


@gen("media")
def xm(rng):
    g = G("xm", "fasttracker2")
    g.mime = "audio/xm"
    channels = rng.choice((2, 4, 6, 8, 10, 32))
    npat, nins = rng.randint(0, 3), rng.randint(1, 3)
    name, tracker = title(rng, 20), rng.choice(("FastTracker v2.00", "OpenMPT 1.17", word(rng, 1, 20)))
    length = rng.randint(1, 256)
    flags = rng.getrandbits(2)
    tempo, bpm, restart = rng.randint(1, 31), rng.randint(32, 255), rng.randrange(256)
    order = rbytes(rng, 256)
    out = bytearray(b"Extended Module: " + padded(name, 20, b" ") + b"\x1a" + padded(tracker, 20, b" ") + b"\x04\x01"
                    + pack("<I8H", 276, length, restart, channels, npat, nins, flags, tempo, bpm) + order)
    g.fs("header/", signature="Extended Module: ", title=name, marker=0x1a, tracker_name=tracker, format_minor=4,
         format_major=1, header_size=276, song_length=length, restart=restart, channels=channels, patterns=npat,
         instruments=nins, amiga_ftable=bool(flags & 1), linear_ftable=bool(flags & 2), tempo=tempo, bpm=bpm)
    k = rng.randrange(256)
    g.f("header/pattern_order/order[%d]" % k, order[k])
    g.description = "'%s' by '%s'" % (name, tracker)
    for p in range(npat):
        rows = rng.choice((1, 2, 3, 16, 64))
        empty = rng.random() < .2
        body = bytearray()
        facts = []
        path = "pattern[%d]" % p
        start = len(out)
        if not empty:
            for r in range(rows):
                for c in range(channels):
                    note = "%s/row[%d]/note[%d]" % (path, r, c)
                    pos = start + 9 + len(body)
                    if rng.random() < .15:
                        vals = [rng.randint(0, 97), rng.randrange(129), 0, 0, 0]
                        vals[2], vtext = xm_volume(rng)
                        vals[3], vals[4], etext = xm_effect(rng)
                        mask = 0x1f
                        body += bytes(vals)
                        facts.append(("value", note + "/is_extended", False))
                        g.use("notes not packed")
                    else:
                        mask = rng.choice((0, 0, rng.getrandbits(5)))
                        vals = [rng.randint(1, 97), rng.randint(1, 128), 0, 0, 0]
                        vals[2], vtext = xm_volume(rng)
                        vals[3], vals[4], etext = xm_effect(rng)
                        if vals[3] in (14, 33) and not mask & 16:
                            vals[3], vals[4], etext = 1, 0, "Porta up"
                        body.append(0x80 | mask)
                        facts.append(("value", note + "/is_extended", True))
                        for bit, key in enumerate(("note", "instrument", "volume", "type", "parameter")):
                            if mask >> bit & 1:
                                body.append(vals[bit])
                            facts.append(("value", note + "/info/has_" + key, bool(mask >> bit & 1)))
                    if r < 2 or rng.random() < .2:
                        facts.append(("address", note, pos * 8))
                        facts.append(("size", note, (start + 9 + len(body) - pos) * 8))
                        for bit, key in enumerate(("note", "instrument", "volume", "effect_type", "effect_parameter")):
                            if not mask >> bit & 1:
                                facts.append(("absent", note + "/" + key, None))
                            elif bit == 2:
                                facts.append(("value", note + "/volume", vals[2]))
                                facts.append(("display", note + "/volume", vtext))
                            elif bit == 3:
                                facts.append(("value", note + "/effect_type", etext))
                            else:
                                facts.append(("value", note + "/" + key, vals[bit]))
                    else:
                        del facts[-6 if mask != 0x1f else -1:]
        else:
            g.use("empty patterns")
        out += pack("<IBHH", 9, 0, rows, len(body)) + body
        g.at(path, start, 9 + len(body))
        g.fs(path + "/", header_size=9, packing_type=0, rows=rows, data_size=len(body))
        g.desc(path, "Pattern with %d rows" % rows)
        g.count(path + "/row", 0 if empty else rows)
        g.facts += facts
    for i in range(nins):
        path = "instrument[%d]" % i
        start = len(out)
        iname = title(rng, 22)
        ns = rng.choice((0, 1, 1, 2, 3))
        kind = rng.choice((0, 0, 24, 96))
        extra = rng.choice((0, 0, 0, 4, 234)) if ns == 0 else rng.choice((0, 0, 7))
        size = (263 if ns else 29) + extra
        out += pack("<I22sBH", size, padded(iname, 22, b" " if rng.random() < .2 else b"\0"), kind, ns)
        g.fs(path + "/", size=size, name=iname, type=kind, samples=ns)
        g.desc(path, "Instrument '%s': %d samples, header %d bytes" % (iname, ns, size))
        if not ns:
            out += rbytes(rng, extra)
        else:
            notes = bytes(rng.randrange(ns) for _ in range(96))
            venv = [rng.randrange(65) for _ in range(24)]
            penv = [rng.randrange(65) for _ in range(24)]
            points = [rng.randrange(13) for _ in range(8)]
            vtype, ptype = rng.getrandbits(3), rng.getrandbits(3)
            vib = [rng.randrange(256) for _ in range(4)]
            fade = rng.randrange(4096)
            out += pack("<I", 40) + notes + pack("<24H24H", *venv, *penv) + bytes(points) + bytes((vtype, ptype)) + bytes(vib)
            out += pack("<H", fade) + bytes(22) + rbytes(rng, extra)
            p2 = path + "/second_header"
            g.at(p2, start + 29, 234)
            g.f(p2 + "/sample_header_size", 40)
            for n, v in ((95, notes), (rng.randrange(96), notes)):
                g.f(p2 + "/notes/sample[%d]" % n, v[n])
            n = rng.randrange(24)
            g.f(p2 + "/volume_envelope/point[%d]" % n, venv[n])
            g.f(p2 + "/panning_envelope/point[%d]" % n, penv[n])
            for key, v in zip(("volume_points", "panning_points", "volume_sustain_point", "volume_loop_start_point",
                               "volume_loop_end_point", "panning_sustain_point", "panning_loop_start_point",
                               "panning_loop_end_point"), points):
                g.f(p2 + "/" + key, v)
            for key, v in (("volume_type", vtype), ("panning_type", ptype)):
                for bit, nm in enumerate(("on", "sustain", "loop")):
                    g.f("%s/%s/%s" % (p2, key, nm), bool(v >> bit & 1))
            for key, v in zip(("vibrato_type", "vibrato_sweep", "vibrato_depth", "vibrato_rate"), vib):
                g.f(p2 + "/" + key, v)
            g.f(p2 + "/volume_fadeout", fade)
        datas = []
        for s in range(ns):
            sp = "%s/sample_header[%d]" % (path, s)
            data = rbytes(rng, rng.choice((0, 1, 10, 200, rng.randrange(500))))
            loop = rng.randrange(3)
            wide = rng.random() < .4
            if wide:
                data = data[:len(data) & ~1]
            fine, rel = rng.randint(-128, 127), rng.randint(-48, 48)
            vol, pan = rng.randint(0, 64), rng.randrange(256)
            l0, l1 = rng.randrange(1000), rng.randrange(1000)
            sname = title(rng, 22)
            g.at(sp, len(out), 40)
            out += pack("<IIIBbBBbB22s", len(data), l0, l1, vol, fine, loop | (16 if wide else 0), pan, rel, 0,
                        padded(sname, 22))
            g.fs(sp + "/", length=len(data), loop_start=l0, loop_end=l1, volume=vol, fine_tune=fine, panning=pan,
                 relative_note=rel, name=sname)
            g.fs(sp + "/type/", loop_mode=loop)
            g.f(sp + "/type/16bits", wide)
            g.disp(sp + "/type/loop_mode", ("No loop", "Forward loop", "Ping-pong loop")[loop])
            g.checks.append(xm_sample(sp, sname, 16 if wide else 8, len(data) // (2 if wide else 1),
                                      8363 * 2 * 2 ** (rel / 12 + fine / 1536)))
            if data:
                datas.append(data)
        for s, data in enumerate(datas):
            g.at("%s/sample_data[%d]" % (path, s), len(out), len(data))
            g.f("%s/sample_data[%d]" % (path, s), data)
            out += data
        g.count(path + "/sample_data", len(datas))
        g.at(path, start, len(out) - start)
    g.size = len(out)
    if rng.random() < .3:
        g.use("ModPlug data")
        modplug(rng, g, out, nins)
    g.data = bytes(out)
    return g


def xm_sample(path, name, bits, samples, hertz):
    def check(parser):
        value = parser[path].value
        m = re.fullmatch(r"['\"]%s['\"], (\d+)bits, (\d+) samples, (\d+)Hz" % re.escape(name), value)
        if not m or int(m[1]) != bits or int(m[2]) != samples or abs(int(m[3]) - hertz) > max(2, hertz / 10000):
            return [("sample", "%s: %r, not %d bits, %d samples, %d Hz" % (path, value[:80], bits, samples, hertz))]
        return []
    return check


def modplug(rng, g, out, nins):
    def sized(code, body, path):
        g.at(path, len(out), 8 + len(body))
        g.f(path + "/block_type", code)
        g.f(path + "/block_size", len(body))
        out.extend(code.encode() + pack("<I", len(body)) + body)

    if rng.random() < .5:
        text = phrase(rng, 1, 20)
        sized("TEXT", text.encode(), "comment")
        g.f("comment/comment", text)
    if rng.random() < .3:
        macros = [word(rng, 0, 30) for _ in range(9 + 16 + 128)]
        sized("MIDI", b"".join(padded(m, 32) for m in macros), "midi_config")
        for n, nm in enumerate(("start", "stop", "tick", "noteon", "noteoff", "volume", "pan", "banksel", "program")):
            g.f("midi_config/midi_out/" + nm, macros[n])
        for n, (arr, count) in ((9, ("sfx_ext", 16)), (25, ("zxx_ext", 128))):
            k = rng.randrange(count)
            if macros[n + k]:
                g.f("midi_config/%s/command[%d]/command" % (arr, k), macros[n + k])
    if rng.random() < .3:
        sized("CNAM", rbytes(rng, 20 * rng.randint(1, 4)), "block[0]")
    if rng.random() < .3:
        vals = [rng.getrandbits(32) for _ in range(rng.randint(1, 8))]
        sized("XFHC", pack("<%dI" % len(vals), *vals), "channel_settings")
        g.f("channel_settings/settings/mix_plugin[%d]" % (len(vals) - 1), vals[-1])
    for n in range(rng.choice((0, 0, 1, 2))):
        ids = [rng.getrandbits(32) for _ in range(4)]
        pname, dll = title(rng, 32), title(rng, 64)
        extra = rbytes(rng, rng.choice((0, 1, 30)))
        body = pack("<4I16s32s64s", *ids, bytes(16), padded(pname, 32), padded(dll, 64)) + pack("<I", len(extra)) + extra
        path = "plugin[%d]" % n
        prog = None
        if rng.random() < .5:
            prog = rng.randrange(128)
            body += pack("<I4sf4sI", 16, b"DWRT", .5, b"PORG", prog)
        sized("FX%02d" % n, body, path)
        g.fs(path + "/info/", plugin_id1=ids[0], plugin_id2=ids[1], input_routing=ids[2], output_routing=ids[3], name=pname,
             dll_name=dll)
        g.f(path + "/extra_data/size", len(extra))
        if extra:
            g.f(path + "/extra_data/data", extra)
        if prog is not None:
            g.f(path + "/xplug_data/dry_ratio", .5)
            g.f(path + "/xplug_data/default_program", prog)
    if rng.random() < .6:
        g.f("instrument_ext/block_type", "XTPM")
        g.at("instrument_ext", len(out))
        out += b"XTPM"
        for n in range(rng.randint(1, 4)):
            code, fmt, nm = rng.choice((("..OF", "I", "Fade out"), ("..VG", "I", "Global Volume"), (".SLV", "B", "Volume Loop Start"),
                                        (".SPP", "b", "PPS"), ("..RV", "H", "Volume Ramping"), ("..[n", "32s", "Name"),
                                        (".[EV", "32B", "Volume Enveloppe")))
            path = "instrument_ext/field[%d]" % n
            start = len(out)
            width = {"I": 4, "B": 1, "b": 1, "H": 2}.get(fmt, 32)
            out += code.encode() + pack("<H", width)
            g.f(path + "/code", code)
            g.f(path + "/data_size", width)
            for i in range(nins):
                idx = "[%d]" % i if nins > 1 else ""
                if fmt == "32s":
                    v = title(rng, 32)
                    out += padded(v, 32)
                    g.f(path + "/value" + idx, v)
                elif fmt == "32B":
                    v = rbytes(rng, 32)
                    out += v
                    g.f(path + "/values" + idx + "/item[31]", v[31])
                else:
                    v = rng.randrange(100)
                    out += pack("<" + fmt, v)
                    g.f(path + "/value" + idx, v)
            g.desc(path, "Element '%s', size %d" % (nm, width))
            g.at(path, start, len(out) - start)
        g.count("instrument_ext/field", n + 1)
    if rng.random() < .6:
        g.f("song_ext/block_type", "STPM")
        out += b"STPM"
        for n in range(rng.randint(0, 4)):
            code = rng.choice(("...C", "..TD", "VWSL", ".BPR", ".MPR"))
            v = rng.getrandbits(32)
            out += code.encode() + pack("<HI", 4, v)
            path = "song_ext/field[%d]" % n
            g.f(path + "/code", code)
            if code == "...C":
                g.f(path + "/value", v)
            else:
                g.f(path + "/data", pack("<I", v))
        if rng.random() < .5:
            info = bytes(4) + rbytes(rng, rng.randint(4, 30))
            g.f("info", info)
            out += info


# ---- S3M, PTM ----

def align(out, n=16):
    out += bytes(-len(out) % n)


@gen("media")
def s3m(rng):
    g = G("s3m", "s3m")
    g.mime = "audio/s3m"
    nord, nins, npat = rng.randint(1, 60), rng.randint(0, 5), rng.randint(0, 3)
    name = title(rng, 28)
    flags = rng.getrandbits(8)
    panned = rng.random() < .4
    minor, major = (rng.choice((0x20, 0x21)), 3) if panned else rng.choice(((0x00, 3), (0x01, 3), (0x20, 3), (0x12, 1)))
    chan = rbytes(rng, 32)
    orders = rbytes(rng, nord)
    pan = rbytes(rng, 32)
    vals = [rng.randrange(65), rng.randint(1, 31), rng.randint(32, 255), rng.randrange(256), rng.choice((8, 12, 16))]
    hsize = 0x60 + nord + 2 * (nins + npat) + (32 if panned else 0)
    end = (hsize + 15) // 16 * 16
    # positions of the instruments, patterns and samples
    place = list(range(nins))
    rng.shuffle(place)
    out = bytearray()
    gap = rng.random() < .3
    pos = end
    ipos = {}
    for k in place:
        if gap and rng.random() < .3:
            pos += 16 * rng.randint(1, 3)
            g.use("gaps")
        ipos[k] = pos
        pos += 80
    pats = []
    for k in range(npat):
        data = bytearray()
        for r in range(64):
            for c in range(rng.choice((0, 0, 1, 2))):
                what = rng.randrange(32) | rng.randrange(1, 8) << 5
                data.append(what)
                data += rbytes(rng, 2 * (what >> 5 & 1) + (what >> 6 & 1) + 2 * (what >> 7 & 1))
            data.append(0)
        pats.append((pos, pack("<H", len(data) + 2) + data))
        pos += (len(data) + 2 + 15) // 16 * 16
    samples = {}
    for k in place:
        t = rng.choice((0, 1, 1, 1))
        size = rng.choice((0, 1, 16, 40, rng.randrange(300))) if t else 0
        fl = rng.getrandbits(3) if t else 0
        total = size << (fl >> 1 & 1) + (fl >> 2 & 1)
        samples[k] = (t, size, fl, pos if t and size else rng.choice((0, 16 * rng.randrange(100))) if not t else 0,
                      rbytes(rng, total))
        if total:
            pos += (total + 15) // 16 * 16
    out += padded(name, 28) + bytes((0x1a, 16, 0, 0)) + pack("<HHHH", nord, nins, npat, flags)
    out += bytes((minor, major | 0x10)) + pack("<H", 2) + b"SCRM" + bytes(vals) + bytes((252 if panned else 0,)) + bytes(8)
    out += pack("<H", 0) + chan + orders
    out += b"".join(pack("<H", ipos[k] // 16) for k in range(nins)) + b"".join(pack("<H", p // 16) for p, d in pats)
    g.fs("header/", title=name, type=16, num_orders=nord, num_instruments=nins, num_patterns=npat, creation_version_minor=minor,
         creation_version_major=major, creation_version_unknown=1, format_version=2, glob_vol=vals[0], init_speed=vals[1],
         init_tempo=vals[2], volume=vals[3] & 127, stereo=bool(vals[3] >> 7), click_removal=vals[4],
         panning_info=252 if panned else 0, custom_data_parapointer=0)
    g.f("header/marker[0]", 0x1a)
    g.f("header/marker[1]", "SCRM")
    g.desc("header", "%s (%d patterns, %d instruments)" % (name, npat, nins))
    g.at("header", 0, end)
    for bit, nm in enumerate(("st2_vibrato", "st2_tempo", "amiga_slides", "zero_vol_opt", "amiga_limits", "sb_processing",
                              "vol_slide", "extended")):
        g.f("header/flags/" + nm, bool(flags >> bit & 1))
    k = rng.randrange(32)
    p = "header/channel_settings/channel[%d]" % k
    kind = chan[k] & 127
    g.f(p + "/type", kind)
    g.f(p + "/enabled", bool(chan[k] >> 7))
    g.disp(p + "/type", "Left Sample Channel %d" % kind if kind < 8 else "Right Sample Channel %d" % (kind - 8) if kind < 16
           else "Adlib channel %d" % (kind - 16) if kind < 32 else "Value %d unknown" % kind)
    k = rng.randrange(nord)
    g.f("header/orders/order[%d]" % k, orders[k])
    for k in range(nins):
        g.f("header/instr_pptr/offset[%d]" % k, ipos[k] // 16)
    for k in range(npat):
        g.f("header/pattern_pptr/offset[%d]" % k, pats[k][0] // 16)
        g.at("pattern[%d]" % k, pats[k][0], (len(pats[k][1]) + 15) // 16 * 16)
    g.count("pattern", npat)
    if panned:
        out += pan
        k = rng.randrange(32)
        p = "header/channel_panning/channel[%d]" % k
        g.f(p + "/default_position", pan[k] & 15)
        g.f(p + "/use_default", bool(pan[k] & 32))
    align(out)
    out += bytes(pos - len(out))
    for p, d in pats:
        out[p:p + len(d)] = d
    nsam = 0
    for n, k in enumerate(place):
        t, size, fl, offset, data = samples[k]
        fname, iname = word(rng, 0, 12), title(rng, 28) if rng.random() < .9 else ""
        speed = rng.choice((8363, 44100, rng.randrange(1, 200000)))
        l0, l1, vol = rng.randrange(1000), rng.randrange(1000), rng.randrange(65)
        mark = "SCRS" if t else rng.choice(("SCRS", ""))
        body = bytes((t,)) + padded(fname, 12) + bytes((offset >> 20,)) + pack("<H", offset >> 4 & 0xffff)
        body += pack("<IIIBBBBIIHHI", size, l0, l1, vol, 0, 0, fl, speed, 0, 1, 2, 3) + padded(iname, 28) + padded(mark, 4)
        out[ipos[k]:ipos[k] + 80] = body
        path = "instrument[%d]" % n
        g.at(path, ipos[k], 80)
        g.fs(path + "/", type=t, filename=fname, sample_offset=offset, sample_size=size, loop_begin=l0, loop_end=l1,
             volume=vol, packing=0, c4_speed=speed, name=iname, marker=mark)
        g.f(path, iname)
        for bit, nm in enumerate(("loop_on", "stereo", "16bits")):
            g.f(path + "/flags/" + nm, bool(fl >> bit & 1))
        g.desc(path, "%d, %s, %d bits" % (speed, "stereo" if fl & 2 else "mono", 16 if fl & 4 else 8))
        g.disp(path + "/type", ("Unknown", "Sample")[t])
        if data:
            g.at("sample_data[%d]" % nsam, offset, (len(data) + 15) // 16 * 16)
            g.f("sample_data[%d]/data" % nsam, data)
            g.at("sample_data[%d]/data" % nsam, offset, len(data))
            out[offset:offset + len(data)] = data
            nsam += 1
        else:
            g.use("instruments without sample")
    g.count("instrument", nins)
    g.count("sample_data", nsam)
    g.data = bytes(out)
    return g


@gen("media")
def ptm(rng):
    g = G("ptm", "ptm")
    nord, nins, npat, chans = rng.randint(1, 256), rng.randint(0, 5), rng.randint(0, 4), rng.randint(1, 32)
    name = title(rng, 28)
    version = rng.choice((0x203, 0x201))
    settings, orders = rbytes(rng, 32), rbytes(rng, 256)
    pos = (608 + 80 * nins + 15) // 16 * 16
    pats = []
    for k in range(npat):
        data = bytearray()
        facts = []
        for r in range(64):
            row = "pattern[%d]/row[%d]" % (k, r)
            n = rng.choice((0, 0, 1, 2))
            for c in range(n):
                ch, mask = rng.randrange(32), rng.randrange(1, 8)
                note = "%s/note[%d]" % (row, c)
                facts.append(("address", note, (pos + len(data)) * 8))
                facts.append(("value", note + "/info/channel", ch))
                data.append(ch | mask << 5)
                for bit, keys in enumerate((("note", "instrument"), ("effect", "param"), ("volume",))):
                    for key in keys:
                        if mask >> bit & 1:
                            v = rng.randrange(256)
                            data.append(v)
                            facts.append(("value", note + "/" + key, v))
                        else:
                            facts.append(("absent", note + "/" + key, None))
            facts.append(("count", row + "/note", n))
            data.append(0)
        g.facts += [f for f in facts if rng.random() < .5]
        g.count("pattern[%d]/row" % k, 64)
        size = (len(data) + 15) // 16 * 16
        g.at("pattern[%d]" % k, pos, size)
        pats.append((pos, bytes(data).ljust(size, b"\0")))
        pos += size
    heads = bytearray()
    tail = bytearray()
    nsam = 0
    for k in range(nins):
        kind = rng.choice((0, 1, 1, 1))
        data = rbytes(rng, rng.choice((1, 2, 30, 200))) if kind else b""
        fl = kind | (rng.getrandbits(3) << 2 if kind else 0)
        offset = pos + len(tail) if kind else 0
        fname, iname = word(rng, 0, 12), title(rng, 28)
        vol, speed, seg = rng.randrange(65), rng.choice((8363, 22050, 44100)), rng.randrange(65536)
        nums = [rng.randrange(1 << 20) for _ in range(5)]
        path = "instrument[%d]" % k
        g.at(path, 608 + 80 * k, 80)
        heads += bytes((fl,)) + padded(fname, 12) + bytes((vol,)) + pack("<HHII5IBB", speed, seg, offset, len(data), *nums,
                                                                         fl & 12, 0)
        heads += padded(iname, 28) + b"PTMS"
        g.fs(path + "/", filename=fname, volume=vol, c4_speed=speed, sample_segment=seg, sample_offset=offset,
             sample_size=len(data), loop_begin=nums[0], loop_end=nums[1], gus_begin=nums[2], gus_loop_start=nums[3],
             gus_loop_end=nums[4], gus_loop_flags=fl & 12, name=iname, marker="PTMS")
        g.fs(path + "/flags/", origin=kind, loop=bool(fl & 4), loop_bidir=bool(fl & 8))
        g.f(path + "/flags/16bits", bool(fl & 16))
        g.disp(path + "/flags/origin", ("No sample", "Regular")[kind])
        g.desc(path, "%d, %d bits" % (speed, 16 if fl & 16 else 8))
        if data:
            g.at("sample_data[%d]" % nsam, offset, len(data))
            g.f("sample_data[%d]/data" % nsam, data)
            tail += data
            nsam += 1
    head = padded(name, 28) + b"\x1a" + pack("<HB", version, 0) + pack("<HHHHHH", nord, nins, npat, chans, 0, 0) + b"PTMF"
    head += bytes(16) + settings + orders + pack("<128H", *([p // 16 for p, d in pats] + [0] * (128 - npat)))
    out = head + bytes(heads)
    out += bytes(-len(out) % 16)
    g.data = out + b"".join(d for p, d in pats) + bytes(tail)
    g.fs("header/", title=name, type=version, num_orders=nord, num_instruments=nins, num_patterns=npat, channels=chans, flags=0)
    g.at("header", 0, 608)
    g.desc("header", "%s (%d patterns, %d instruments)" % (name, npat, nins))
    k = rng.randrange(256)
    g.f("header/orders/order[%d]" % k, orders[k])
    for k in range(npat):
        g.f("header/pattern_pptr/offset[%d]" % k, pats[k][0] // 16)
    g.count("pattern", npat)
    g.count("instrument", nins)
    g.count("sample_data", nsam)
    return g


# ---- MOD ----

MOD_TYPES = {"M.K.": ("Noise/Pro-Tracker", 4), "M!K!": ("Noise/Pro-Tracker", 4), "FLT4": ("StarTrekker", 4),
             "6CHN": ("FastTracker", 6), "8CHN": ("FastTracker", 8), "CD81": ("Octalyser", 8), "OCTA": ("Octalyser", 8),
             "FA04": ("Digital Tracker", 4), "FA06": ("Digital Tracker", 6), "FA08": ("Digital Tracker", 8)}


@gen("media")
def mod(rng):
    g = G("mod", "mod")
    g.mime = "audio/mod"
    kind = rng.choice(tuple(MOD_TYPES))
    soft, chans = MOD_TYPES[kind]
    name = title(rng, 20)
    npat = rng.randint(1, 3)
    length = rng.randint(1, 128)
    order = bytearray(rng.randrange(npat) for _ in range(128))
    order[rng.randrange(length)] = npat - 1
    played = rng.choice((127, rng.randrange(128)))
    out = bytearray(padded(name, 20))
    g.fs("header/", name=name, length=length, played_patterns_count=played, type=kind)
    datas = []
    for i in range(31):
        data = rbytes(rng, 2 * rng.choice((0, 0, 1, 10, 100)))
        sname, fine, vol = title(rng, 22) if rng.random() < .7 else "", rng.randrange(16), rng.randrange(65)
        l0, l1 = rng.randrange(65536), rng.randrange(65536)
        path = "header/samples/info[%d]" % i
        g.at(path, len(out), 30)
        out += padded(sname, 22) + pack(">HBBHH", len(data) // 2, fine, vol, l0, l1)
        if rng.random() < .3:
            g.fs(path + "/", name=sname, sample_count=len(data) // 2, fine_tune=fine, volume=vol, loop_start=l0, loop_len=l1)
            g.disp(path + "/fine_tune", str(fine - 16 if fine > 7 else fine))
            if vol:
                g.disp(path + "/volume", "%.1f dB" % (20 * math.log10(vol / 64)))
            g.f(path, sname)
        datas.append(data)
    out += bytes((length, played)) + order + kind.encode()
    k = rng.randrange(128)
    g.f("header/patterns/position[%d]" % k, order[k])
    g.at("header", 0, 1084)
    for p in range(npat):
        start = len(out)
        out += rbytes(rng, 64 * chans * 4)
        g.at("pattern[%d]" % p, start, 64 * chans * 4)
        for _ in range(4):
            r, c = rng.randrange(64), rng.randrange(chans)
            note = "pattern[%d]/row[%d]/note[%d]" % (p, r, c)
            at = start + (r * chans + c) * 4
            b = out[at:at + 4]
            g.at(note, at, 4)
            g.fs(note + "/", note_hi_nibble=b[0] >> 4, period=(b[0] & 15) << 8 | b[1], note_low_nibble=b[2] >> 4,
                 effect=b[2] & 15, parameter=b[3])
    g.count("pattern", npat)
    n = 0
    for i, data in enumerate(datas):
        if data:
            path = "sample_data[%d]" % n
            g.at(path, len(out), len(data))
            g.f(path, data)
            g.desc(path, "Sample %d" % i)
            out += data
            n += 1
    g.count("sample_data", n)

    def check(parser):
        want = "%s module, %d channels" % (soft, chans)
        return [] if parser.value == want else [("value", "value of the module: %r, not %r" % (parser.value, want))]
    g.checks.append(check)
    g.data = bytes(out)
    return g
