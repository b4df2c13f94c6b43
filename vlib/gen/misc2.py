"""X11 fonts (PCF)."""
from vlib.gen import G, gen, pack, phrase, rbytes, word

PCF_TYPES = {1: "Properties", 2: "Accelerators", 4: "Metrics", 8: "Bitmaps", 0x10: "Ink metrics", 0x20: "BDF encodings",
             0x40: "SWidths", 0x80: "Glyph names", 0x100: "BDF accelerators"}
PCF_META = {"COPYRIGHT": "copyright", "WEIGHT_NAME": "font_weight", "FOUNDRY": "author", "FONT": "title",
            "_XMBDFED_INFO": "producer", "CHARSET_REGISTRY": "charset"}


def pcf_format(g, path, rng):
    """(format, byte order)"""
    big = rng.random() < .5
    bit, scan, pad = rng.random() < .5, rng.randrange(3), rng.randrange(3)
    high = rng.choice((0, 0, 0x100 >> 6, 0x200 >> 6))
    g.fs(path + "/format/", byte_big_endian=big, bit_big_endian=bit, scan_unit=scan)
    return pad | big << 2 | bit << 3 | scan << 4 | high << 6, ">" if big else "<"


@gen("misc")
def pcf(rng):
    g = G("pcf", "pcf")
    types = rng.sample(sorted(PCF_TYPES), rng.randint(1, len(PCF_TYPES)))
    types.sort()
    order = list(range(len(types)))
    if rng.random() < .3:
        rng.shuffle(order)
        g.use("tables not in the order of the directory")
    pos = 8 + 16 * len(types)
    tables, body = {}, bytearray()
    ndata = 0
    for k in order:
        kind = types[k]
        if rng.random() < .2:
            body += bytes(4 * rng.randint(1, 3))
        start = pos + len(body)
        if kind == 1:
            fmt, e = pcf_format(g, "properties", rng)
            names = rng.sample(sorted(PCF_META), rng.randint(0, len(PCF_META))) + ["SLANT", "PIXEL_SIZE", "WEIGHT"][:rng.randrange(4)]
            rng.shuffle(names)
            strings, recs = bytearray(), b""
            ints = 0
            for i, name in enumerate(names):
                path = "properties/property[%d]" % i
                g.at(path, start + 8 + 9 * i, 9)
                is_string = name not in ("PIXEL_SIZE", "WEIGHT")
                noff = len(strings)
                strings += name.encode() + b"\0"
                if is_string:
                    value = phrase(rng, 1, 4)
                    voff = len(strings)
                    strings += value.encode() + b"\0"
                    g.f("properties/value[%d]" % (i - ints), value)
                    g.desc("properties/value[%d]" % (i - ints), "Value of property[%d]" % i)
                    if name in PCF_META and name != "CHARSET_REGISTRY":
                        g.m(PCF_META[name], value)
                else:
                    voff = 0x10000 + rng.randrange(1000)
                    ints += 1
                recs += pack(e + "IBI", noff, is_string, voff)
                g.fs(path + "/", name_offset=noff, is_string=int(is_string), value_offset=voff)
                g.desc(path, "Property %s" % name)
                g.f("properties/name[%d]" % i, name)
                g.desc("properties/name[%d]" % i, "Name of property[%d]" % i)
            pad = -9 * len(names) % 4
            raw = pack("<I", fmt) + pack(e + "I", len(names)) + recs + bytes(pad) + pack(e + "I", len(strings))
            g.f("properties/nb_prop", len(names))
            g.f("properties/total_str_length", len(strings))
            g.at("properties/total_str_length", start + 8 + len(recs) + pad, 4)
            g.count("properties/property", len(names))
            raw += strings + bytes(-len(strings) % 4)
            path = "properties"
        elif kind == 128:
            fmt, e = pcf_format(g, "glyph_names", rng)
            names = ["%s%d" % (word(rng), i) for i in range(rng.randint(0, 8))]
            offs, strings = [], bytearray()
            for i, n in enumerate(names):
                offs.append(len(strings))
                strings += n.encode() + b"\0"
                g.f("glyph_names/name[%d]" % i, n)
                g.f("glyph_names/offset[%d]" % i, offs[-1])
            raw = pack("<I", fmt) + pack(e + "I", len(names)) + pack(e + "%dI" % len(names), *offs) + pack(e + "I", len(strings))
            for i, n in enumerate(names):
                g.at("glyph_names/name[%d]" % i, start + len(raw) + offs[i], len(n) + 1)
            g.f("glyph_names/count", len(names))
            g.f("glyph_names/total_str_length", len(strings))
            raw += strings + bytes(-len(strings) % 4)
            path = "glyph_names"
        else:
            fmt = rng.getrandbits(10)
            raw = pack("<I", fmt) + rbytes(rng, 4 * rng.randint(1, 20))
            path = "data[%d]" % ndata
            ndata += 1
            g.f(path, raw)
            g.desc(path, "Content of /toc[%d]" % k)
        g.at(path, start, len(raw))
        tables[k] = (kind, fmt, len(raw), start)
        body += raw
    head = b"\1fcp" + pack("<I", len(types))
    g.f("signature", b"\1fcp")
    g.f("nb_toc", len(types))
    for k in range(len(types)):
        kind, fmt, size, start = tables[k]
        path = "toc[%d]" % k
        g.at(path, 8 + 16 * k, 16)
        g.fs(path + "/", type=kind, format=fmt, size=size, offset=start)
        g.disp(path + "/type", PCF_TYPES[kind])
        g.desc(path, "%s at %d (%d bytes)" % (PCF_TYPES[kind], start, size))
        head += pack("<4I", kind, fmt, size, start)
    g.data = head + bytes(body)
    return g
