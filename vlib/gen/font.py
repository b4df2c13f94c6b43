"""TrueType and OpenType fonts."""
import datetime

from vlib.gen import ALPHA, G, Texts, gen, pack, rbytes, word

MAC_EPOCH = datetime.datetime(1904, 1, 1)
U, I = "H", "h"


def s16(rng):
    return rng.randint(-32768, 32767)


def u16(rng):
    return rng.getrandbits(16)


def fixed(v):
    """number multiple of 1/65536"""
    return pack(">i", int(v * 65536))


def rfixed(rng):
    return rng.choice((0, rng.randint(-400, 400), rng.randint(-2 ** 31, 2 ** 31 - 1) / 65536))


def head(rng, g, t):
    p = "header/"
    dates = [rng.randint(2 ** 31, 3900000000) for _ in range(2)]
    when = [MAC_EPOCH + datetime.timedelta(seconds=d) for d in dates]
    flags = rng.getrandbits(16) & ~0x40
    style = rng.getrandbits(7)
    box = [s16(rng) for _ in range(4)]
    em, low = rng.randint(16, 16384), rng.randint(1, 99)
    direction, fmt = rng.randint(-2, 2), rng.randrange(2)
    rev, check = (u16(rng), u16(rng)), rng.getrandbits(32)
    g.fs(p, maj_ver=1, min_ver=0, font_maj_ver=rev[0], font_min_ver=rev[1], checksum=check, magic=b"\x5f\x0f\x3c\xf5", unit_per_em=em, created=when[0],
         modified=when[1], created_high=0, modified_high=0, xmin=box[0], ymin=box[1], xmax=box[2], ymax=box[3], lowest=low, font_dir=direction,
         ofst_format=fmt, glyph_format=0, adobe=flags >> 14)
    for bit, name in enumerate(("y0", "x0", "instr_point", "ppem", "instr_width", "vertical", None, "linguistic", "gx", "strong", "indic", "lossless",
                                "converted", "cleartype")):
        if name:
            g.f(p + name, bool(flags >> bit & 1))
    for bit, name in enumerate(("bold", "italic", "underline", "outline", "shadow", "condensed", "expanded")):
        g.f(p + name, bool(style >> bit & 1))
    text = {0: "Mixed directional", 1: "Left to right", 2: "Left to right + neutrals", -1: "Right to left", -2: "Right to left + neutrals"}[direction]
    g.disp(p + "font_dir", text)
    g.m("creation_date", when[0])
    g.m("last_modification", when[1])
    g.m("comment", "Smallest readable size in pixels: %d pixels" % low, "Font direction: " + text)
    return pack(">4HI4sHHIIII4h2HhHH", 1, 0, *rev, check, b"\x5f\x0f\x3c\xf5", flags, em, 0, dates[0], 0, dates[1], *box, style, low, direction, fmt, 0)


def hhea(rng, g, t):
    v = {k: s16(rng) for k in ("ascender", "descender", "lineGap")}
    adv = u16(rng)
    w = {k: s16(rng) for k in ("minLeftSideBearing", "minRightSideBearing", "xMaxExtent", "caretSlopeRise", "caretSlopeRun", "caretOffset")}
    n = u16(rng)
    g.fs("hhea/", majorVersion=1, minorVersion=0, advanceWidthMax=adv, metricDataFormat=0, numberOfHMetrics=n, **v, **w)
    return pack(">HH3hH6h8xhH", 1, 0, *v.values(), adv, *w.values(), 0, n)


def maxp(rng, g, t):
    n = u16(rng)
    g.f("maxp/numGlyphs", n)
    if rng.random() < .3:
        g.use("maxp 0.5")
        g.absent("maxp/maxPoints")
        g.f("maxp/format", .5)
        return pack(">HHH", 0, 0x5000, n)
    names = ("maxPoints maxContours maxCompositePoints maxCompositeContours maxZones maxTwilightPoints maxStorage maxFunctionDefs maxInstructionDefs "
             "maxStackElements maxSizeOfInstructions maxComponentElements maxComponentDepth").split()
    v = {k: u16(rng) for k in names}
    g.fs("maxp/", format=1.0, **v)
    return pack(">HHH13H", 1, 0, n, *v.values())


def os2(rng, g, t):
    p, ver = "OS_2/", rng.randrange(6)
    a = dict(xAvgCharWidth=s16(rng), usWeightClass=rng.randint(1, 1000), usWidthClass=rng.randint(1, 9))
    perm, sub, bitmap = rng.choice((0, 2, 4, 8)), rng.random() < .5, rng.random() < .5
    b = {k: s16(rng) for k in ("ySubscriptXSize ySubscriptYSize ySubscriptXOffset ySubscriptYOffset ySuperscriptXSize ySuperscriptYSize "
                               "ySuperscriptXOffset ySuperscriptYOffset yStrikeoutSize yStrikeoutPosition sFamilyClass").split()}
    panose = rbytes(rng, 10)
    c = {"ulUnicodeRange%d" % i: rng.getrandbits(32) for i in (1, 2, 3, 4)}
    vend = word(rng, 4, 4)
    d = {k: u16(rng) for k in ("fsSelection", "usFirstCharIndex", "usLastCharIndex")}
    e = {k: s16(rng) for k in ("sTypoAscender", "sTypoDescender", "sTypoLineGap")}
    f = {k: u16(rng) for k in ("usWinAscent", "usWinDescent")}
    out = pack(">HhHHH11h10s4I4s3H3h2H", ver, *a.values(), perm | sub << 8 | bitmap << 9, *b.values(), panose, *c.values(), vend.encode(), *d.values(),
               *e.values(), *f.values())
    more = {}
    if ver >= 1:
        more.update(ulCodePageRange1=rng.getrandbits(32), ulCodePageRange2=rng.getrandbits(32))
        out += pack(">II", *more.values())
    if ver >= 2:
        v = dict(sxHeight=s16(rng), sCapHeight=s16(rng), usDefaultChar=u16(rng), usBreakChar=u16(rng), usMaxContext=u16(rng))
        out += pack(">hhHHH", *v.values())
        more.update(v)
    if ver >= 5:
        v = dict(usLowerOpticalPointSize=u16(rng), usUpperOpticalPointSize=u16(rng))
        out += pack(">HH", *v.values())
        more.update(v)
    g.use("OS/2 version %d" % ver)
    g.fs(p, version=ver, achVendID=vend, **a, **b, **c, **d, **e, **f, **more)
    g.fs(p + "fsType/", usage_permissions=perm, no_subsetting=sub, bitmap_embedding=bitmap)
    g.disp(p + "fsType/usage_permissions", {0: "Installable embedding", 2: "Restricted License embedding", 4: "Preview & Print embedding",
                                            8: "Editable embedding"}[perm])
    for i, x in enumerate(panose):
        g.f(p + "panose/item[%d]" % i, x)
    return out


def post(rng, g, t):
    p, kind = "post/", rng.choice((1, 2, 2, 3))
    angle = rfixed(rng)
    v = dict(underlinePosition=s16(rng), underlineThickness=s16(rng))
    u = {k: rng.getrandbits(32) for k in ("isFixedPitch", "minMemType42", "maxMemType42", "minMemType1", "maxMemType1")}
    g.fs(p, version=float(kind), italicAngle=angle, **v, **u)
    out = pack(">HH", kind, 0) + fixed(angle) + pack(">2h5I", *v.values(), *u.values())
    if kind == 2:
        n = rng.randint(1, 30)
        new = rng.randint(0, n)
        idx = list(range(258, 258 + new)) + [rng.randrange(258) for _ in range(n - new)]
        rng.shuffle(idx)
        names = [word(rng, 1, 30) for _ in range(new)]
        out += pack(">H%dH" % n, n, *idx) + b"".join(bytes([len(x)]) + x.encode() for x in names)
        g.f(p + "numGlyphs", n)
        for gid, i in enumerate(idx):
            g.f(p + "Array of indices into the string data/glyphNameIndex[%d]" % gid, i)
            if i >= 258:
                g.f(p + "glyphname[%d]" % gid, names[i - 258])
            else:
                g.absent(p + "glyphname[%d]" % gid)
    return out


def names(rng, g, t):
    p = "names/"
    codes = [(1, 0, 0, "mac_roman"), (3, 1, 0x409, "utf-16-be"), (0, 3, 0, "utf-16-be"), (3, 10, 0x409, "utf-16-be"), (0, 4, 0, "utf-16-be")]
    ids = {0: ("Copyright notice", "copyright"), 1: ("Font family name", None), 2: ("Font subfamily name", None), 3: ("Unique font identifier", "title"),
           4: ("Full font name", None), 5: ("Version string", "version"), 6: ("Postscript name", None), 7: ("Trademark", None),
           8: ("Manufacturer name", "author"), 9: ("Designer", None), 10: ("Description", None), 11: ("URL Vendor", "url"),
           12: ("URL Designer", None), 13: ("License Description", None), 14: ("License info URL", "copyright")}
    platforms = {0: "Unicode", 1: "Macintosh", 3: "Microsoft"}
    texts = Texts(rng)
    meta = {k: [] for k in ("copyright", "title", "version", "author", "url")}
    recs, body, order = [], b"", []
    chosen = sorted(rng.sample(sorted(ids), rng.randint(1, len(ids))))
    entries = []
    for plat, enc, lang, charset in sorted(rng.sample(codes, rng.randint(1, 3))):
        for k in chosen:
            entries.append((plat, enc, lang, charset, k))
    values = []
    for e in rng.sample(entries, len(entries)):
        plat, enc, lang, charset, k = e
        text = texts(1, 4)
        if rng.random() < .3:
            text += rng.choice("\xe9\xfc\xc5")
        if k == 5 and rng.random() < .5:
            meta["version"].append(text)
            text = "Version " + text
        elif ids[k][1]:
            meta[ids[k][1]].append(text)
        values.append((e, text))
    where = {}
    for e, text in values:
        if rng.random() < .2:
            body += bytes(rng.randint(1, 4))
        raw = text.encode(e[3])
        where[e] = (len(raw), len(body))
        body += raw
    start = 6 + 12 * len(entries)
    if rng.random() < .2:
        start += rng.randint(1, 8)
    out = pack(">HHH", 0, len(entries), start)
    for i, e in enumerate(entries):
        plat, enc, lang, charset, k = e
        out += pack(">6H", plat, enc, lang, k, *where[e])
        h = "%sheader[%d]/" % (p, i)
        g.fs(h, platformID=plat, encodingID=enc, languageID=lang, nameID=k, length=where[e][0], offset=where[e][1])
        g.desc(h[:-1], "Name record: %s (%s)" % (ids[k][0], platforms[plat]))
    for i, (e, text) in enumerate(values):
        g.f("%svalue[%d]" % (p, i), text)
        g.desc("%svalue[%d]" % (p, i), "Name record: %s (%s)" % (ids[e[4]][0], platforms[e[0]]))
    g.fs(p, format=0, count=len(entries), offset=start)
    for k, v in meta.items():
        g.m(k, *v)
    return out.ljust(start, b"\0") + body


def cmap(rng, g, t):
    p = "cmap/"
    n = rng.randint(1, 4)
    subs = []
    counts = {}
    for _ in range(rng.randint(1, n)):
        fmt, lang = rng.choice((0, 4, 4, 6, 12)), rng.randrange(9)
        k = counts.setdefault(fmt, 0)
        counts[fmt] += 1
        q = "%scmap table format %d[%d]/" % (p, fmt, k)
        if fmt == 0:
            m = rbytes(rng, 256)
            raw = pack(">HHH", 0, 262, lang) + m
            for i in range(256):
                g.f("%smapping/item[%d]" % (q, i), m[i])
        elif fmt == 4:
            seg = rng.randint(1, 9)
            extra = [u16(rng) for _ in range(rng.choice((0, 3, 10)))]
            end, start, off = [[u16(rng) for _ in range(seg)] for _ in range(3)]
            delta = [s16(rng) for _ in range(seg)]
            h = dict(segCountX2=seg * 2, searchRange=u16(rng), entrySelector=u16(rng), rangeShift=u16(rng))
            size = 16 + 8 * seg + 2 * len(extra)
            raw = pack(">3H4H", 4, size, lang, *h.values()) + pack(">%dHH%dH%dh%dH" % (seg, seg, seg, seg), *end, 0, *start, *delta, *off)
            raw += pack(">%dH" % len(extra), *extra)
            g.fs(q, length=size, **h)
            for name, arr in (("endCode", end), ("startCode", start), ("idDelta", delta), ("idRangeOffsets", off), ("glyphIdArray", extra)):
                for i, x in enumerate(arr):
                    g.f("%s%s/item[%d]" % (q, name, i), x)
            if not extra:
                g.absent(q + "glyphIdArray")
        elif fmt == 6:
            arr = [u16(rng) for _ in range(rng.randint(1, 20))]
            first = u16(rng)
            raw = pack(">5H", 6, 10 + 2 * len(arr), lang, first, len(arr)) + pack(">%dH" % len(arr), *arr)
            g.fs(q, length=len(raw), firstCode=first, entryCount=len(arr))
            for i, x in enumerate(arr):
                g.f("%sglyphIdArray/item[%d]" % (q, i), x)
        else:
            groups = [[rng.getrandbits(32) for _ in "abc"] for _ in range(rng.randint(0, 6))]
            raw = pack(">HHIII", 12, 0, 16 + 12 * len(groups), lang, len(groups))
            for i, x in enumerate(groups):
                raw += pack(">3I", *x)
                g.fs("%smapgroup[%d]/" % (q, i), startCharCode=x[0], endCharCode=x[1], startGlyphID=x[2])
            g.fs(q, length=len(raw), numGroups=len(groups))
        g.fs(q, format=fmt, language=lang)
        subs.append((raw, q))
    here = 4 + 8 * n
    offs, body = [], b""
    for raw, q in subs:
        if rng.random() < .3:
            body += bytes(rng.choice((2, 4)))
        g.checks.append(address_in(q[:-1], "cmap", here + len(body), len(raw)))
        offs.append(here + len(body))
        body += raw
    use = offs + [rng.choice(offs) for _ in range(n - len(offs))]
    rng.shuffle(use)
    if n > len(offs):
        g.use("shared cmap")
    out = pack(">HH", 0, n)
    for i, o in enumerate(use):
        v = dict(platformID=rng.choice((0, 1, 3)), encodingID=rng.randrange(11))
        out += pack(">HHI", *v.values(), o)
        g.fs("%sencodingRecords[%d]/" % (p, i), subtableOffset=o, **v)
    g.fs(p, version=0, numTables=n)
    return out + body


def address_in(path, base, offset, size):
    def check(parser):
        f, b = parser[path], parser[base]
        if f.absolute_address - b.absolute_address != offset * 8 or f.size != size * 8:
            return [("address:" + base, "%s: at %s+%s instead of %s+%s" % (path, f.address / 8, f.size / 8, offset, size))]
        return []
    return check


def avar(rng, g, t):
    p, n = "avar/", rng.randint(1, 3)
    out = pack(">4H", 1, 0, 0, n)
    g.fs(p, majorVersion=1, minorVersion=0, axisCount=n)
    for i in range(n):
        pairs = [(s16(rng), s16(rng)) for _ in range(rng.randint(0, 4))]
        out += pack(">H", len(pairs))
        g.f("%ssegmentMaps[%d]/positionMapCount" % (p, i), len(pairs))
        for k, (a, b) in enumerate(pairs):
            out += pack(">hh", a, b)
            g.fs("%ssegmentMaps[%d]/axisValueMaps[%d]/" % (p, i, k), fromCoordinate=a / 16384, toCoordinate=b / 16384)
    return out


def fvar(rng, g, t):
    p, n, m, ps = "fvar/", rng.randint(1, 3), rng.randint(0, 3), rng.random() < .5
    start = rng.choice((16, 16, 20))
    v = dict(axisArrayOffset=start, axisCount=n, axisSize=20, instanceCount=m, instanceSize=4 + 4 * n + 2 * ps)
    out = pack(">HHHH4H", 1, 0, start, 2, n, 20, m, v["instanceSize"]).ljust(start, b"\0")
    g.fs(p, majorVersion=1, minorVersion=0, **v)
    for i in range(n):
        tag, nums, hidden, name = word(rng, 4, 4), [rfixed(rng) for _ in range(3)], rng.randrange(2), u16(rng)
        out += tag.encode() + b"".join(map(fixed, nums)) + pack(">HH", hidden, name)
        g.fs("%saxes[%d]/" % (p, i), axisTag=tag, minValue=nums[0], defaultValue=nums[1], maxValue=nums[2], hidden=bool(hidden), axisNameID=name)
    for i in range(m):
        sub, nums, psname = u16(rng), [rfixed(rng) for _ in range(n)], u16(rng)
        out += pack(">HH", sub, 0) + b"".join(map(fixed, nums)) + (pack(">H", psname) if ps else b"")
        q = "%sinstances[%d]/" % (p, i)
        g.f(q + "subfamilyNameID", sub)
        for k, x in enumerate(nums):
            g.f("%scoordinates/coordinate[%d]" % (q, k), x)
        if ps:
            g.f(q + "postScriptNameID", psname)
        else:
            g.absent(q + "postScriptNameID")
    return out


def dsig(rng, g, t):
    p, n, flag = "DSIG/", rng.randint(0, 3), rng.randrange(2)
    blocks = [rbytes(rng, rng.randint(1, 200)) for _ in range(n)]
    here = 8 + 12 * n
    recs, body = b"", b""
    for i, b in enumerate(blocks):
        if rng.random() < .3:
            body += bytes(2)
        g.fs("%ssignatureRecords[%d]/" % (p, i), format=1, length=len(b) + 8, signatureBlockOffset=here + len(body))
        g.fs("%ssignatureBlock[%d]/" % (p, i), length=len(b), signature=b)
        recs += pack(">III", 1, len(b) + 8, here + len(body))
        body += pack(">HHI", 0, 0, len(b)) + b
    g.fs(p, version=1, numSignatures=n, flag=bool(flag))
    return pack(">IHH", 1, n, flag) + recs + body


def gsub(rng, g, t):
    p, minor = "GSUB/", rng.randrange(2)
    start = 10 + 4 * minor
    parts = [rbytes(rng, rng.randint(1, 60)) for _ in range(3 + minor)]
    order = rng.sample(range(3 + minor), 3 + minor)
    offs, body = {}, b""
    gone = 3 if minor and rng.random() < .3 else None
    k = 0
    for i in order:
        if i == gone:
            offs[i] = 0
            continue
        offs[i] = start + len(body)
        body += parts[i]
        g.f("%scontent[%d]" % (p, k), parts[i])
        k += 1
    g.count(p + "content", k)
    g.fs(p, majorVersion=1, minorVersion=minor, scriptList=offs[0], featureList=offs[1], lookupList=offs[2])
    out = pack(">5H", 1, minor, offs[0], offs[1], offs[2])
    if minor:
        out += pack(">I", offs[3])
        g.f(p + "featureVariationsOffset", offs[3])
    return out + body


TABLES = {"head": ("header", head), "hhea": ("hhea", hhea), "maxp": ("maxp", maxp), "OS/2": ("OS_2", os2), "post": ("post", post), "name": ("names", names),
          "cmap": ("cmap", cmap), "avar": ("avar", avar), "fvar": ("fvar", fvar), "DSIG": ("DSIG", dsig), "GSUB": ("GSUB", gsub)}


@gen("misc")
def ttf(rng):
    g = G("ttf", "ttf")
    version = rng.choice(((1, 0), (1, 0), (0x4F54, 0x544F)))
    tags = [t for t in TABLES if rng.random() < .75] + rng.sample(["glyf", "loca", "cvt ", "fpgm", "GPOS", "kern"], rng.randint(0, 4))
    while len(tags) < 3:
        tags.append("XX%02d" % len(tags))
    tags.sort()
    n = len(tags)
    here = 12 + 16 * n
    heads, body = {}, b""
    raw = 0
    for tag in rng.sample(tags, n):
        data = TABLES[tag][1](rng, g, None) if tag in TABLES else rbytes(rng, rng.choice((0, 1, 50, 333)))
        at = here + len(body)
        heads[tag] = (rng.getrandbits(32), at, len(data))
        if tag in TABLES:
            name = TABLES[tag][0]
        else:
            name = "table[%d]" % raw
            if data:
                raw += 1
                g.f(name + "/content", data)
        if data:
            g.at(name, at, len(data))
        body += data + bytes(-len(data) % 4)
    h = dict(maj_ver=version[0], min_ver=version[1], nb_table=n, search_range=u16(rng), entry_selector=u16(rng), range_shift=u16(rng))
    g.fs("", **h)
    out = pack(">6H", *h.values())
    for i, tag in enumerate(tags):
        g.fs("table_hdr[%d]/" % i, tag=tag, checksum=heads[tag][0], offset=heads[tag][1], size=heads[tag][2])
        out += tag.encode() + pack(">III", *heads[tag])
    g.data = out + body
    return g
