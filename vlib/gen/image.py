"""Images: PNG, GIF, BMP, ICO, PCX, TGA, WMF/EMF, TIFF, PSD, XCF, JPEG."""
import datetime
import zlib
from hachoir.parser import guessParser
from vlib.gen import G, Texts, gen, pack, phrase, pick_dim, rbytes, word

LATIN = "abcdefghijklmnopqrstuvwxyz0123456789\xe9\xe8\xfc\xc0\xdf.,;"


def dim_meta(g, w, h):
    g.m("width", *([w] if 1 <= w <= 20000 else []))
    g.m("height", *([h] if 1 <= h <= 20000 else []))


def rdate(rng, lo=1985, hi=2030):
    return datetime.datetime(rng.randint(lo, hi), rng.randint(1, 12), rng.randint(1, 28),
                             rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))


def png_bytes(rng, w=1, h=1):
    def chunk(tag, data):
        return pack(">I", len(data)) + tag + data + pack(">I", zlib.crc32(tag + data))
    raw = b"".join(b"\0" + rbytes(rng, w) for _ in range(h))
    return (b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", pack(">IIBBBBB", w, h, 8, 0, 0, 0, 0))
            + chunk(b"IDAT", zlib.compress(raw)) + chunk(b"IEND", b""))


@gen("image")
def png(rng):
    g = G("png", "png")
    texts = Texts(rng, LATIN)
    color = rng.choice([0, 2, 3, 4, 6])
    depth = rng.choice({0: [1, 2, 4, 8, 16], 2: [8, 16], 3: [1, 2, 4, 8], 4: [8, 16], 6: [8, 16]}[color])
    comps = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[color]
    w, h = pick_dim(rng), pick_dim(rng)
    interlace = rng.randint(0, 1)
    big = w * h * comps > 60000
    g.use("color%d" % color, "depth%d" % depth)
    chunks = []

    def add(name, tag, data, at=None):
        chunks.insert(len(chunks) if at is None else at, (name, tag, data))
    pal = None
    body = pack(">IIBBBBB", w, h, depth, color, 0, 0, interlace)
    g.fs("/header/", width=w, height=h, bit_depth=depth, has_alpha=bool(color & 4), color=bool(color & 2),
         has_palette=bool(color & 1), compression=0, filter=0, interlace=interlace)
    g.disp("/header/compression", "deflate")
    add("header", b"IHDR", body)
    meta_comment = []
    producers = []
    extra = []
    if rng.random() < .4:
        gamma = rng.choice([45455, 100000, rng.randint(1, 10 ** 6)])
        extra.append(("gamma", b"gAMA", pack(">I", gamma)))
        g.f("/gamma/gamma", gamma)
        g.f("/gamma", gamma / 100000)
    if rng.random() < .5:
        x, y, u = rng.choice([rng.randint(1, 9999), 10001, 2834]), rng.randint(1, 9999), rng.randint(0, 1)
        extra.append(("physical", b"pHYs", pack(">IIB", x, y, u)))
        g.fs("/physical/", pixel_per_unit_x=x, pixel_per_unit_y=y, unit=u)
    if rng.random() < .5:
        d = rdate(rng)
        extra.append(("time", b"tIME", pack(">HBBBBB", d.year, d.month, d.day, d.hour, d.minute, d.second)))
        g.f("/time", d)
        g.fs("/time/", year=d.year, month=d.month, day=d.day, hour=d.hour, minute=d.minute, second=d.second)
        g.m("creation_date", d)
    else:
        g.m("creation_date")
    ntext = 0
    for _ in range(rng.choice([0, 0, 1, 2, 5])):
        key = rng.choice(["Comment", "comment", "Software", "Title", "Author", word(rng, 3, 20)])
        text = texts()
        extra.append(("text[%d]" % ntext, b"tEXt", key.encode() + b"\0" + text.encode("latin-1")))
        g.fs("/text[%d]/" % ntext, keyword=key, text=text)
        ntext += 1
        if key.lower() == "software":
            producers.append(text)
        elif key.lower() == "comment":
            meta_comment.append(text)
        else:
            meta_comment.append("%s=%s" % (key, text))
    for n in range(rng.choice([0, 0, 1, 3])):
        tag = rng.choice([b"prVt", b"sBIT", b"iTXt", b"zTXt", b"stER"])
        data = png_bytes(rng) if rng.random() < .3 else rbytes(rng, rng.randint(1, 60))
        extra.append((None, tag, data))
        if b"IEND" in data:
            g.use("png-in-chunk")
    rng.shuffle(extra)
    # numbers follow the order of the chunks in the file
    renum, n = {}, 0
    for i, (name, tag, data) in enumerate(extra):
        if tag == b"tEXt":
            renum[name] = "text[%d]" % n
            extra[i] = (renum[name], tag, data)
            n += 1
    g.facts = [(k, p if not p.startswith("/text[") else "/" + renum[p[1:].split("/")[0]] + p[p.index("/", 1):], v)
               for k, p, v in g.facts]
    chunks += extra
    trans = False
    nbcol = None
    if color == 3 or (color in (2, 6) and rng.random() < .2):
        nbcol = rng.randint(1, 1 << min(depth, 8))
        pal = [tuple(rbytes(rng, 3)) for _ in range(nbcol)]
        add("palette", b"PLTE", b"".join(map(bytes, pal)))
        for i in {0, nbcol - 1, rng.randrange(nbcol)}:
            g.fs("/palette/color[%d]/" % i, red=pal[i][0], green=pal[i][1], blue=pal[i][2])
        g.count("/palette/color", nbcol)
    if color == 3 and rng.random() < .5:
        t = rbytes(rng, rng.randint(1, nbcol))
        add("transparency", b"tRNS", t)
        trans = True
        for i, v in enumerate(t[:3]):
            g.f("/transparency/alpha_value[%d]" % i, v)
    if rng.random() < .3:
        if color == 3:
            i = rng.randrange(nbcol)
            add("background", b"bKGD", bytes([i]))
            g.use("bkgd-index")
        elif color in (0, 4):
            add("background", b"bKGD", pack(">H", rng.randrange(1 << depth)))
            g.use("bkgd-gray")
        else:
            c = [rng.randrange(1 << depth) for _ in range(3)]
            add("background", b"bKGD", pack(">HHH", *c))
            g.fs("/background/", red=c[0], green=c[1], blue=c[2])
    rows = 3 if big else h
    rowbytes = (w * comps * depth + 7) // 8
    raw = b"".join(bytes([rng.randint(0, 4)]) + rbytes(rng, min(rowbytes, 4000)) for _ in range(min(rows, 200)))
    comp = zlib.compress(raw, rng.randint(0, 9))
    cuts = sorted(rng.randint(0, len(comp)) for _ in range(rng.choice([0, 0, 1, 3])))
    cuts = [c for c in dict.fromkeys([0] + cuts + [len(comp)])]
    n = 0
    for a, b in zip(cuts, cuts[1:]):
        if a < b:
            add("data[%d]" % n, b"IDAT", comp[a:b])
            g.f("/data[%d]/size" % n, b - a)
            n += 1
    g.count("/data", n)
    g.use("idat%d" % min(n, 3))
    g.part("/data[0]/compressed_data", raw)
    add("end", b"IEND", b"")
    out = b"\x89PNG\r\n\x1a\n"
    for name, tag, data in chunks:
        crc = zlib.crc32(tag + data)
        if name:
            g.at("/" + name, len(out), len(data) + 12)
            g.f("/" + name + "/crc32", crc)
            g.f("/" + name + "/tag", tag.decode())
        out += pack(">I", len(data)) + tag + data + pack(">I", crc)
    g.data = out
    g.size = len(out)
    dim_meta(g, w, h)
    g.m("bits_per_pixel", comps * depth)
    g.m("compression", "deflate")
    if color == 3:
        g.m("pixel_format", "Color index with transparency" if trans else "Color index")
    elif color in (2, 6):
        g.m("pixel_format", "RGBA" if color == 6 else "RGB")
    if color == 3 and not trans:
        g.m("nb_colors", nbcol)
    g.m("comment", *meta_comment)
    g.m("producer", *producers)
    return g


def lzw(rng, codes_min, pix):
    """GIF image data (bits little endian); returns (data, [(code, width)], pixels decoded after each code)

    The encoder follows the table of the decoder: an entry is added with each code but the first after a
    clear, the width grows when the next entry does not fit any more, and stays at 12 bits with a full table.
    """
    clear, end = 1 << codes_min, (1 << codes_min) + 1
    literal = rng.choice([0, 0, .3, 1])
    early = rng.choice([0, 0, 0, .002])         # a clear anywhere
    full = rng.choice([0, .003, 1])             # how soon a full table is cleared
    boundary = rng.random() < .3                # a clear just when the width has grown
    codes, lengths = [], []
    table, nxt, width, prev = {}, clear + 2, codes_min + 1, None
    pos = 0

    def emit(code):
        codes.append((code, width))
        lengths.append(pos)

    emit(clear)
    while pos < len(pix):
        if prev is not None and (rng.random() < early or (nxt == 4096 and rng.random() < full)
                                 or (boundary and nxt == 1 << (width - 1) and nxt > clear + 2 and rng.random() < .5)):
            emit(clear)
            table, nxt, width, prev = {}, clear + 2, codes_min + 1, None
        best, code = pix[pos:pos + 1], pix[pos]
        if rng.random() >= literal:
            known = table
            n = 2
            while pos + n <= len(pix) and pix[pos:pos + n] in known:
                best, code = pix[pos:pos + n], known[pix[pos:pos + n]]
                n += 1
            # the entry which this very code adds
            if prev is not None and nxt < 4096:
                own = prev + prev[:1]
                if len(own) > len(best) and pix[pos:pos + len(own)] == own:
                    best, code = own, nxt
        pos += len(best)
        emit(code)
        if prev is not None and nxt < 4096:
            table.setdefault(prev + best[:1], nxt)
            nxt += 1
            if nxt == 1 << width and width < 12:
                width += 1
        prev = best
    emit(end)
    acc = nbits = 0
    out = bytearray()
    for c, w in codes:
        acc |= c << nbits
        nbits += w
        while nbits >= 8:
            out.append(acc & 255)
            acc >>= 8
            nbits -= 8
    if nbits:
        out.append(acc & 255)
    return bytes(out), codes, lengths


def lzw_pixels(rng, codes_min, n):
    top = 1 << codes_min
    kind = rng.randrange(4)
    if kind == 0:
        return bytes([rng.randrange(top)]) * n
    if kind == 1:
        return bytes(rng.randrange(top) for _ in range(n))
    if kind == 2:
        few = [rng.randrange(top) for _ in range(2)]
        return bytes(rng.choice(few) for _ in range(n))
    part = bytes(rng.randrange(top) for _ in range(rng.randint(2, 40)))
    return (part * (n // len(part) + 1))[:n]


def lzw_check(path, codes, lengths):
    def check(parser):
        sub = guessParser(parser[path].getSubIStream())
        if sub is None:
            return [("lzw:parser", "no parser for the codes of %s" % path)]
        out = []
        got = [(f.value, f.size) for f in sub.array("code")]
        if got != codes:
            i = next((i for i, (a, b) in enumerate(zip(got, codes)) if a != b), min(len(got), len(codes)))
            out.append(("lzw:codes", "%s: code %d of %d is %s instead of %s" % (path, i, len(codes), got[i:i + 1], codes[i:i + 1])))
        else:
            for i, n in enumerate(lengths):
                desc = sub["code[%d]" % i].description
                if "Decoded Length" in desc and not desc.endswith("Length %d" % n):
                    out.append(("lzw:length", "%s: code %d, %d pixels: %s" % (path, i, n, desc[-60:])))
                    break
        return out
    return check


@gen("image")
def gif(rng):
    g = G("gif", "gif")
    texts = Texts(rng)
    ver = rng.choice(["87a", "89a"])
    w, h = min(pick_dim(rng), 6000), min(pick_dim(rng), 6000)
    gmap = rng.random() < .7
    szg, sort, res = rng.randrange(8), rng.random() < .5, rng.randrange(8)
    bg, par = rng.randrange(256), rng.choice([0, 49])
    out = b"GIF" + ver.encode() + pack("<HHBBB", w, h, szg | (sort << 3) | (res << 4) | (gmap << 7), bg, par)
    g.f("/version", ver)
    g.fs("/screen/", width=w, height=h, size_global_map=szg, sort_flag=sort, color_res=res, global_map=gmap,
         background=bg, pixel_aspect_ratio=par)
    if gmap:
        n = 2 << szg
        pal = rbytes(rng, 3 * n)
        g.at("/color_map", len(out), 3 * n)
        i = rng.randrange(n)
        g.fs("/color_map/color[%d]/" % i, red=pal[3 * i], green=pal[3 * i + 1], blue=pal[3 * i + 2])
        out += pal
    sep = nimg = ncom = ngc = napp = 0
    comments = []
    transp = None
    for _ in range(rng.choice([1, 1, 2, 4])):
        for _ in range(rng.choice([0, 0, 1, 2])):
            k = rng.choice(["com", "gc", "app", "other"])
            g.use(k)
            g.f("/separator[%d]" % sep, "!")
            out += b"!"
            sep += 1
            if k == "com":
                t = [texts() for _ in range(rng.choice([1, 1, 2]))]
                g.at("/comments[%d]" % ncom, len(out))
                out += b"\xfe"
                for i, x in enumerate(t):
                    g.f("/comments[%d]/comment[%d]" % (ncom, i), x)
                    out += bytes([len(x)]) + x.encode()
                out += b"\0"
                ncom += 1
                comments += t
            elif k == "gc":
                tr, ui, dm = rng.random() < .5, rng.random() < .5, rng.randrange(4)
                delay, tc = rng.randrange(65536), rng.randrange(256)
                g.at("/graphic_ctl[%d]" % ngc, len(out), 7)
                g.fs("/graphic_ctl[%d]/" % ngc, has_transp=tr, user_input=ui, disposal_method=dm, delay=delay, transp=tc)
                out += b"\xf9\x04" + pack("<BHBB", tr | ui << 1 | dm << 2, delay, tc, 0)
                ngc += 1
                transp = tr if transp is None else transp
            elif k == "app":
                loop = rng.randrange(65536)
                g.at("/app_ext[%d]" % napp, len(out), 18)
                g.fs("/app_ext[%d]/" % napp, app_name="NETSCAPE2.0", netscape_code=1, loop_count=loop)
                out += b"\xff\x0bNETSCAPE2.0\x03\x01" + pack("<HB", loop, 0)
                napp += 1
            else:
                blk = rbytes(rng, rng.randint(1, 200)) + b"\0;"
                out += b"\x02" + bytes([len(blk)]) + blk + b"\0"
        g.f("/separator[%d]" % sep, ",")
        out += b","
        sep += 1
        iw, ih = (120, rng.randint(60, 120)) if rng.random() < .05 else (rng.randint(1, 30), rng.randint(1, 30))
        left, top = rng.randrange(300), rng.randrange(300)
        lmap, szl, inter, lsort = rng.random() < .4, rng.randrange(8), rng.random() < .3, rng.random() < .5
        p = "/image[%d]" % nimg
        start = len(out)
        g.fs(p + "/", left=left, top=top, width=iw, height=ih, size_local_map=szl, sort_flag=lsort, interlaced=inter,
             has_local_map=lmap)
        out += pack("<HHHHB", left, top, iw, ih, szl | lsort << 5 | inter << 6 | lmap << 7)
        if lmap:
            g.at(p + "/local_map", len(out), 3 * (2 << szl))
            out += rbytes(rng, 3 * (2 << szl))
        cmin = rng.randint(2, 8)
        g.f(p + "/lzw_min_code_size", cmin)
        data, codes, lengths = lzw(rng, cmin, lzw_pixels(rng, cmin, iw * ih))
        g.checks.append(lzw_check(p + "/image_block[0]", codes, lengths))
        out += bytes([cmin])
        step = rng.choice([255, 255, 100, 7])
        n = 0
        for i in range(0, len(data), step):
            b = data[i:i + step]
            if n < 5:
                g.f(p + "/image_block_size[%d]" % n, len(b))
                g.at(p + "/image_block[%d]" % n, len(out) + 1, len(b))
            n += 1
            out += bytes([len(b)]) + b
        out += b"\0"
        g.at(p, start, len(out) - start)
        g.part(p + "/image_block[0]", data)
        nimg += 1
    g.use("img%d" % min(nimg, 2))
    g.f("/separator[%d]" % sep, ";")
    g.count("/image", nimg)
    g.count("/comments", ncom)
    out += b";"
    g.data, g.size = out, len(out)
    dim_meta(g, w, h)
    g.m("bits_per_pixel", szg + 1)
    g.m("nb_colors", 2 << szg)
    g.m("compression", "LZW")
    g.m("format_version", "GIF version " + ver)
    g.m("comment", *comments)
    g.m("pixel_format", "Color index with transparency" if transp else "Color index")
    return g


@gen("image")
def bmp(rng):
    g = G("bmp", "bmp")
    hs = rng.choice([40, 40, 108])
    bpp = rng.choice([1, 4, 8, 24, 32])
    big = rng.random() < .2
    w, h = (pick_dim(rng), pick_dim(rng)) if big else (rng.randint(1, 40), rng.randint(1, 40))
    if w * h > 20000:
        h = 20000 // w + 1
    comp = 0
    row = (w * bpp + 31) // 32 * 4
    used = rng.choice([0, rng.randint(1, 1 << bpp)]) if bpp <= 8 else 0
    ncol = (used or 1 << bpp) if bpp <= 8 else 0
    pix = rbytes(rng, row * h)
    gap = rng.choice([0, 0, 5])
    start = 14 + hs + 4 * ncol + gap
    xdpi, ydpi = rng.choice([0, 2835, rng.randint(1, 20000)]), rng.randint(0, 9000)
    imp = rng.randint(0, 256)
    total = start + len(pix)
    g.use("v%d" % hs, "bpp%d" % bpp)
    out = b"BM" + pack("<III", total, 0, start)
    out += pack("<IIIHHIIIIII", hs, w, h, 1, bpp, comp, len(pix), xdpi, ydpi, used, imp)
    g.fs("/", file_size=total, data_start=start)
    g.fs("/header/", header_size=hs, width=w, height=h, nb_plan=1, bpp=bpp, compression=comp, image_size=len(pix),
         horizontal_dpi=xdpi, vertical_dpi=ydpi, used_colors=used, important_color=imp)
    if hs == 108:
        v = [rng.getrandbits(32) for _ in range(4)]
        cs = rng.choice([1, 2, 4, 8])
        prim = [rng.getrandbits(32) for _ in range(12)]
        out += pack("<IIII", *v) + pack("<I", cs) + pack("<12I", *prim)
        g.fs("/header/", red_mask=v[0], green_mask=v[1], blue_mask=v[2], alpha_mask=v[3], color_space=cs,
             gamma_red=prim[9], gamma_green=prim[10], gamma_blue=prim[11])
        g.fs("/header/red_primary/", x=prim[0], y=prim[1], z=prim[2])
        g.fs("/header/green_primary/", x=prim[3], y=prim[4], z=prim[5])
        g.fs("/header/blue_primary/", x=prim[6], y=prim[7], z=prim[8])
    pal = rbytes(rng, 4 * ncol)
    if ncol:
        g.at("/palette", len(out), 4 * ncol)
        g.count("/palette/color", ncol)
    out += pal + bytes(gap) + pix
    g.at("/pixels", start, len(pix))
    if bpp in (4, 8, 24, 32):
        y, x = rng.randrange(h), rng.randrange(w)
        p = "/pixels/line[%d]" % y
        off = start + (h - 1 - y) * row
        g.at(p, off, row)
        px = p + "/pixel[%d]" % x
        if bpp == 8:
            g.f(px, out[off + x])
        elif bpp == 32:
            g.f(px, int.from_bytes(out[off + 4 * x:off + 4 * x + 4], "little"))
        elif bpp == 24:
            g.at(px, off + 3 * x, 3)
    g.data, g.size = out, total
    dim_meta(g, w, h)
    g.m("bits_per_pixel", bpp)
    g.m("compression", "Uncompressed")
    g.m("format_version", "Microsoft Bitmap version %d" % (4 if hs == 108 else 3))
    if bpp <= 8 and used:
        g.m("nb_colors", used)
    return g


@gen("image")
def ico(rng):
    g = G("ico", "ico")
    typ = rng.choice([1, 1, 2])
    n = rng.randint(1, 6)
    dims = [16, 32, 48, 64]
    hdr = b""
    body = b""
    off0 = 6 + 16 * n
    g.fs("/", signature=0, type=typ, nb_items=n)
    for i in range(n):
        s = rng.choice(dims)
        bpp, ncol, planes = rng.choice([(4, 16, 1), (8, 0, 1), (24, 0, 1), (32, 0, 1)])
        pal = rbytes(rng, 4 * (256 if bpp == 8 else ncol))
        pix = rbytes(rng, rng.randint(1, 200) if rng.random() < .5 else s * s * bpp // 8 + s * s // 8)
        bih = pack("<IIIHHIIIIII", 40, s, 2 * s, 1, bpp, 0, len(pix), 0, 0, 0, 0)
        img = bih + pal + pix
        off = off0 + len(body)
        hdr += pack("<BBBBHHII", s, s, ncol, 0, planes, bpp, len(img), off)
        p = "/icon_header[%d]/" % i
        g.fs(p, width=s, height=s, nb_color=ncol, planes=planes, bpp=bpp, size=len(img), offset=off)
        d = "/icon_data[%d]" % i
        g.at(d, off, len(img))
        g.fs(d + "/header/", hdr_size=40, width=s, height=2 * s, nb_planes=1, bpp=bpp)
        g.at(d + "/pixels", off + 40 + len(pal), len(pix))
        grp = "image[%d]" % i
        g.m("width", s, group=grp)
        g.m("height", s, group=grp)
        g.m("bits_per_pixel", bpp, group=grp)
        g.m("compression", "Uncompressed (RGB)", group=grp)
        if ncol:
            g.m("nb_colors", ncol, group=grp)
        body += img
    g.count("/icon_data", n)
    g.use("n%d" % min(n, 3), "type%d" % typ)
    g.data = pack("<HHH", 0, typ, n) + hdr + body
    g.size = len(g.data)
    return g


@gen("image")
def pcx(rng):
    g = G("pcx", "pcx")
    g.searchable = False
    ver = rng.choice([0, 2, 3, 4, 5])
    bpp = rng.choice([1, 2, 4, 8])
    planes = rng.choice([1, 3, 4])
    w, h = rng.randint(1, 300), rng.randint(1, 300)
    hd, vd = rng.randint(0, 9000), rng.randint(0, 9000)
    mode, bpl = rng.randrange(3), (w * bpp + 15) // 16 * 2
    pal16 = rbytes(rng, 48)
    data = rbytes(rng, rng.randint(1, 500))
    out = pack("<BBBBHHHHHH", 10, ver, 1, bpp, 0, 0, w - 1, h - 1, hd, vd) + pal16 + b"\0"
    out += pack("<BHH", planes, bpl, mode) + bytes(58)
    assert len(out) == 128
    g.at("/image_data", 128, len(data))
    out += data
    if bpp == 8:
        g.at("/palette_8bits", len(out), 768)
        out += rbytes(rng, 768)
    g.fs("/", id=10, version=ver, compression=1, bpp=bpp, xmin=0, ymin=0, xmax=w - 1, ymax=h - 1, horiz_dpi=hd, vert_dpi=vd,
         nb_color_plan=planes, bytes_per_line=bpl, color_mode=mode)
    for i in (0, 15):
        g.fs("/palette_4bits/color[%d]/" % i, red=pal16[3 * i], green=pal16[3 * i + 1], blue=pal16[3 * i + 2])
    g.data = out
    dim_meta(g, w, h)
    g.m("width_dpi", *([hd] if 1 <= hd else []))
    g.m("height_dpi", *([vd] if 1 <= vd else []))
    g.m("compression", "Run-length encoding (RLE)")
    if planes == 1:
        g.m("bits_per_pixel", bpp)
        g.m("nb_colors", 1 << bpp)
    g.use("bpp%d" % bpp)
    return g


@gen("image")
def tga(rng):
    g = G("tga", "targa")
    g.searchable = False
    codec = rng.choice([1, 2, 3, 9, 10, 11])
    bpp = {1: [8], 9: [8], 3: [8], 11: [8], 2: [15, 16, 24, 32], 10: [15, 16, 24, 32]}[codec]
    bpp = rng.choice(bpp)
    paltype = 1 if codec in (1, 9) else 0
    ncol = rng.randint(1, 256) if paltype else 0
    entry = 24 if paltype else 0
    w, h = rng.randint(1, 40), rng.randint(1, 40)
    ident = rbytes(rng, rng.choice([0, 0, 10]))
    alpha, xf, yf = rng.choice([0, 8]), rng.random() < .5, rng.random() < .5
    x0, y0 = rng.randrange(100), rng.randrange(100)
    out = pack("<BBBHHBHHHHBB", len(ident), paltype, codec, 0, ncol, entry, x0, y0, w, h, bpp, alpha | xf << 4 | yf << 5)
    g.fs("/", id_length=len(ident), palette_type=paltype, codec=codec, palette_ofs=0, nb_color=ncol, color_map_size=entry,
         x_min=x0, y_min=y0, width=w, height=h, bpp=bpp, alpha_depth=alpha, x_flip=xf, y_flip=yf)
    if ident:
        g.at("/image_id", 18, len(ident))
    out += ident
    if paltype:
        g.at("/palette", len(out), 3 * ncol)
        g.count("/palette/color", ncol)
        out += rbytes(rng, 3 * ncol)
    nb = (bpp + 7) // 8
    if codec < 9:
        pix = rbytes(rng, w * h * nb)
        g.at("/pixels", len(out), len(pix))
        y, x = rng.randrange(h), rng.randrange(w)
        row = y if yf else h - 1 - y
        off = (row * w + x) * nb
        g.f("/pixels/line[%d]/pixel[%d]" % (y, x), int.from_bytes(pix[off:off + nb], "little"))
    else:
        pix = b"".join(bytes([0x80 | (n - 1)]) + rbytes(rng, nb) for n in [w] * h if n <= 128)
        g.at("/raw_pixels", len(out), len(pix))
    g.data = out + pix
    dim_meta(g, w, h)
    g.m("bits_per_pixel", bpp)
    if ncol:
        g.m("nb_colors", ncol)
    g.m("compression", {1: "Palette uncompressed", 2: "True-color uncompressed", 3: "Grayscale uncompressed",
                        9: "Palette RLE", 10: "True-color RLE", 11: "Grayscale RLE"}[codec])
    g.use("codec%d" % codec)
    return g


@gen("image")
def wmf(rng):
    apm = rng.random() < .6
    g = G("wmf", "wmf")
    out = b""
    if apm:
        left, top = rng.randint(-1000, 1000), rng.randint(-1000, 1000)
        right, bottom = left + rng.randint(1, 5000), top + rng.randint(1, 5000)
        inch = rng.choice([96, 1440])
        head = pack("<IHhhhhHI", 0x9AC6CDD7, 0, left, top, right, bottom, inch, 0)
        cs = 0
        for i in range(0, 20, 2):
            cs ^= int.from_bytes(head[i:i + 2], "little")
        out += head + pack("<H", cs)
        g.fs("/amf_header/", signature=0x9AC6CDD7, handle=0, inch=inch, checksum=cs)
        g.fs("/amf_header/rect/", left=left, top=top, right=right, bottom=bottom)
        g.m("width", right - left)
        g.m("height", bottom - top)
        g.m("bits_per_pixel", 24)
    funcs = []
    for _ in range(rng.randint(4, 12)):
        f = rng.choice([0x0104, 0x0106, 0x012D, 0x01f0, 0x020B, 0x020C, 0x0324, 0x0213, 0x0418, 0x02FA, 0x02FC, 0x0940])
        if f in (0x0104, 0x0106, 0x012D, 0x01f0):
            v = rng.randint(1, 16)
            funcs.append((f, pack("<H", v), {"object_id" if f in (0x012D, 0x01f0) else "operation": v}))
        elif f in (0x020B, 0x020C):
            x, y = rng.randint(-30000, 30000), rng.randint(-30000, 30000)
            funcs.append((f, pack("<hh", y, x), {}))
        elif f == 0x0324:
            n = rng.randint(1, 8)
            pts = [rng.randint(-30000, 30000) for _ in range(2 * n)]
            funcs.append((f, pack("<H%dh" % (2 * n), n, *pts),
                          {"count": n, "point[%d]/x" % (n - 1): pts[-2], "point[%d]/y" % (n - 1): pts[-1]}))
        elif f == 0x02FA:
            s, w, h, c = rng.randrange(9), rng.randrange(100), rng.randrange(100), rbytes(rng, 4)
            funcs.append((f, pack("<HHH", s, w, h) + c, {"pen_style": s, "pen_width": w, "pen_height": h, "color/red": c[0],
                                                         "color/blue": c[2]}))
        elif f == 0x02FC:
            s, c, hh = rng.randrange(9), rbytes(rng, 4), rng.randrange(6)
            funcs.append((f, pack("<H", s) + c + pack("<H", hh), {"brush_style": s, "color/green": c[1], "brush_hatch": hh}))
        elif f == 0x0940:
            d = b"\3\0\0\0\0\0" if rng.random() < .4 else b""
            d += rbytes(rng, 2 * rng.randint(1, 30))
            g.use("bitmap" + "+eof" * (d[:6] == b"\3\0\0\0\0\0"))
            funcs.append((f, d, {}))
        else:
            funcs.append((f, rbytes(rng, 2 * rng.randint(1, 8)), {}))
    funcs.append((0, b"", {}))
    recs = b""
    start = len(out) + 18
    for i, (f, d, facts) in enumerate(funcs):
        p = "/func[%d]" % i
        g.at(p, start + len(recs), 6 + len(d))
        g.fs(p + "/", size=3 + len(d) // 2, function=f)
        for k, v in facts.items():
            g.f(p + "/" + k, v)
        recs += pack("<IH", 3 + len(d) // 2, f) + d
    words = (18 + len(recs)) // 2
    ftype = rng.choice([0, 1])
    nobj, mx = rng.randrange(20), max(3 + len(d) // 2 for f, d, _ in funcs)
    out += pack("<HHHIHIH", ftype, 9, 0x300, words, nobj, mx, 0) + recs
    g.fs("/", file_type=ftype, header_size=9, win_ver_min=0, win_ver_maj=3, file_size=words, nb_obj=nobj, max_record_size=mx,
         nb_params=0)
    g.count("/func", len(funcs))
    g.data, g.size = out, len(out)
    g.use("apm" if apm else "plain")
    return g


@gen("image")
def emf(rng):
    g = G("emf", "wmf")
    title, prog = phrase(rng), phrase(rng)
    desc = rng.random() < .6
    text = (prog + "\0" + title + "\0\0").encode("utf-16-le") if desc else b""
    pad = rng.choice([0, 4, 8])
    hsize = 88 + len(text) + pad
    if hsize % 4:
        pad += 4 - hsize % 4
        hsize = 88 + len(text) + pad
    funcs = []
    for _ in range(rng.randint(4, 10)):
        f = rng.choice([9, 10, 11, 12, 27, 54, 37, 40, 42, 43])
        if f in (9, 10, 11, 12, 27, 54):
            x, y = rng.randint(-99999, 99999), rng.randint(-99999, 99999)
            funcs.append((f, pack("<ii", x, y), {}))
        elif f in (37, 40):
            v = rng.getrandbits(32)
            funcs.append((f, pack("<I", v), {"object_id": v}))
        else:
            funcs.append((f, rbytes(rng, 16), {}))
    funcs.append((14, pack("<III", 0, 16, 20), {}))
    recs = b""
    for i, (f, d, facts) in enumerate(funcs):
        p = "/func[%d]" % i
        g.at(p, hsize + len(recs), 8 + len(d))
        g.fs(p + "/", size=8 + len(d), function=f)
        for k, v in facts.items():
            g.f(p + "/" + k, v)
        recs += pack("<II", f, 8 + len(d)) + d
    bounds = [rng.randint(-5000, 5000) for _ in range(8)]
    ncol = rng.choice([0, 0, rng.randint(1, 256)])
    wp, hp, wm, hm = rng.randint(1, 5000), rng.randint(1, 5000), rng.randint(1, 900), rng.randint(1, 900)
    total = hsize + len(recs)
    nh = rng.randint(1, 50)
    out = pack("<II8iIHHIIHH", 1, hsize, *bounds, 0x464D4520, 0, 1, total, len(funcs) + 1, nh, 0)
    out += pack("<III", len(text) // 2, 88 if desc else 0, ncol) + pack("<iiii", wp, hp, wm, hm)
    assert len(out) == 88
    out += text + bytes(pad) + recs
    g.fs("/emf_header/", type=1, size=hsize, signature=0x464D4520, file_size=total, NumOfRecords=len(funcs) + 1,
         NumOfHandles=nh, nb_colors=ncol, width_px=wp, height_px=hp, width_mm=wm, height_mm=hm)
    g.fs("/emf_header/Bounds/", left=bounds[0], top=bounds[1], right=bounds[2], bottom=bounds[3])
    g.fs("/emf_header/Frame/", left=bounds[4], top=bounds[5], right=bounds[6], bottom=bounds[7])
    if desc:
        g.f("/emf_header/description", prog + "\0" + title)
        g.m("producer", prog)
        g.m("title", title)
    g.data = out
    g.m("width", wp)
    g.m("height", hp)
    if ncol:
        g.m("nb_colors", ncol)
    g.m("bits_per_pixel", 8 if ncol else 24)
    return g


class Tiff:
    """TIFF structure writer: directories of entries, values out of line when
    they do not fit in 4 bytes."""
    FMT = {1: "B", 2: "s", 3: "H", 4: "I", 5: "II", 6: "b", 7: "s", 8: "h", 9: "i", 10: "ii", 11: "f", 12: "d"}
    SIZE = {1: 1, 2: 1, 3: 2, 4: 4, 5: 8, 6: 1, 7: 1, 8: 2, 9: 4, 10: 8, 11: 4, 12: 8}

    def __init__(self, rng, e):
        self.rng, self.e = rng, e

    def raw(self, typ, vals):
        if typ in (2, 7):
            return vals
        return b"".join(pack(self.e + self.FMT[typ], *(v if isinstance(v, tuple) else (v,))) for v in vals)

    def count(self, typ, vals):
        return len(vals)


def tiff_ifd(g, t, prefix, base, offset, entries, nxt=0):
    """bytes of a directory at `offset` (relative to the TIFF header, which is
    at byte `base` of the file) followed by its values; facts under prefix"""
    e = t.e
    head = pack(e + "H", len(entries))
    pos = offset + 2 + 12 * len(entries) + 4
    tail = b""
    g.f(prefix + "/count", len(entries))
    for i, (tag, typ, vals) in enumerate(entries):
        raw = t.raw(typ, vals)
        cnt = len(vals)
        p = prefix + "/entry[%d]" % i
        g.fs(p + "/", tag=tag, type=typ, count=cnt)
        if len(raw) <= 4:
            val = raw.ljust(4, b"\0")
            if cnt == 1 and typ not in (2, 5, 7, 10, 11):
                g.f(p + "/value", vals[0])
        else:
            if len(tail) % 2:
                tail += b"\0"
            at = pos + len(tail)
            val = pack(e + "I", at)
            g.f(p + "/offset", at)
            g.at(prefix + "/value[%d]" % i, base + at, len(raw))
            v = prefix + "/value[%d]" % i
            if typ == 2:
                g.f(v, vals.rstrip(b"\0 ").decode("latin-1").lstrip("\0 "))
            elif typ in (5, 10) and cnt == 1:
                g.fs(v + "/", numerator=vals[0][0], denominator=vals[0][1])
                if vals[0][1]:
                    g.f(v, vals[0][0] / vals[0][1])
            elif typ in (5, 10):
                g.fs(v + "/data[%d]/" % (cnt - 1), numerator=vals[-1][0], denominator=vals[-1][1])
            elif typ in (1, 3, 4, 8, 9) and cnt > 1:
                g.f(v, list(vals))
            tail += raw
        head += pack(e + "HHI", tag, typ, cnt) + val
    head += pack(e + "I", nxt)
    g.f(prefix + "/next", nxt)
    return head + tail


@gen("image")
def tiff(rng):
    g = G("tiff", "tiff")
    e = rng.choice("<>")
    t = Tiff(rng, e)
    texts = Texts(rng, LATIN)
    w, h = pick_dim(rng), pick_dim(rng)
    spp = rng.choice([1, 3, 4])
    bps = rng.choice([1, 8, 16])
    date = rdate(rng)
    xres = (rng.randint(1, 9000), rng.choice([1, 1, 2, 3]))
    nstrip = rng.choice([1, 2, 5])
    strips = [rbytes(rng, rng.randint(1, 90)) for _ in range(nstrip)]
    st = {"desc": texts(), "soft": texts(), "doc": texts()}

    def z(s):
        return s.encode("latin-1") + b"\0"
    base_entries = [(0x100, rng.choice([3, 4]), [w]), (0x101, rng.choice([3, 4]), [h]), (0x102, 3, [bps] * spp),
                    (0x103, 3, [rng.choice([1, 5, 32773])]), (0x106, 3, [2]),
                    (0x10D, 2, z(st["doc"])), (0x10E, 2, z(st["desc"])),
                    (0x111, 4, [0] * nstrip), (0x115, 3, [spp]), (0x116, 3, [h]),
                    (0x117, 4, [len(s) for s in strips]),
                    (0x11A, 5, [xres]), (0x11B, 5, [xres]), (0x128, 3, [2]), (0x131, 2, z(st["soft"])),
                    (0x132, 2, date.strftime("%Y:%m:%d %H:%M:%S").encode() + b"\0")]
    must = {0x100, 0x101, 0x111, 0x117}
    entries = [x for x in base_entries if x[0] in must or rng.random() < .7]
    tags = {x[0] for x in entries}
    order = rng.choice(["ifd-first", "data-first"])
    blob = b"".join(strips)
    first = 8
    if order == "data-first":
        ifd_off = 8 + len(blob) + len(blob) % 2
        data_off = 8
    else:
        ifd_off = first
        # size of the directory does not depend on the offsets
        probe = tiff_ifd(G("x", "x"), t, "", 0, ifd_off, entries)
        data_off = ifd_off + len(probe) + len(probe) % 2
    offs = []
    o = data_off
    for s in strips:
        offs.append(o)
        o += len(s)
    entries = [(tag, typ, offs if tag == 0x111 else v) for tag, typ, v in entries]
    # more pages: the strips of a page, then its directory (without strips: no image)
    more = b""
    nxt = []
    end = max(ifd_off + len(tiff_ifd(G("x", "x"), t, "", 0, ifd_off, entries)), data_off + len(blob))
    nimage = 1
    todo = []
    for page in range(1, 1 + rng.choice((0, 0, 0, 1, 2))):
        body = [rbytes(rng, rng.randint(1, 60)) for _ in range(rng.choice((0, 1, 3)))]
        pos = []
        for s in body:
            pos.append(end + len(more))
            more += s
        more += bytes((end + len(more)) % 2)
        ents = [(0x100, 3, [pick_dim(rng) & 0xfff]), (0x101, 3, [page])]
        if body:
            ents += [(0x111, 4, pos), (0x117, 4, [len(s) for s in body])]
            for i, s in enumerate(body):
                g.at("/image[%d]/strip[%d]" % (nimage, i), pos[i], len(s))
                g.f("/image[%d]/strip[%d]" % (nimage, i), s)
            nimage += 1
        at = end + len(more)
        nxt.append(at)
        more += bytes(len(tiff_ifd(G("x", "x"), t, "", 0, at, ents)))
        todo.append((at, ents))
        g.use("pages")
    nxt.append(0)
    for i, (at, ents) in enumerate(todo):
        raw = tiff_ifd(g, t, "/ifd[%d]" % (i + 1), 0, at, ents, nxt[i + 1])
        more = more[:at - end] + raw + more[at - end + len(raw):]
        g.at("/ifd[%d]" % (i + 1), at)
    g.absent("/image[%d]" % nimage)
    g.absent("/ifd[%d]" % len(nxt))
    d = tiff_ifd(g, t, "/ifd[0]", 0, ifd_off, entries, nxt[0])
    head = (b"II" if e == "<" else b"MM") + pack(e + "HI", 42, ifd_off)
    g.fs("/", endian="II" if e == "<" else "MM", version=42, img_dir_ofs=ifd_off)
    if order == "data-first":
        out = (head + blob).ljust(ifd_off, b"\0") + d
    else:
        out = (head + d).ljust(data_off, b"\0") + blob
    assert len(out) == end
    out += more
    for i, (o, s) in enumerate(zip(offs, strips)):
        g.at("/image[0]/strip[%d]" % i, o, len(s))
        g.f("/image[0]/strip[%d]" % i, s)
    g.at("/ifd[0]", ifd_off)
    g.data = out
    dim_meta(g, w, h)
    g.m("title", *([st["doc"]] if 0x10D in tags else []))
    g.m("comment", *([st["desc"]] if 0x10E in tags else []))
    g.m("producer", *([st["soft"]] if 0x131 in tags else []))
    g.m("creation_date", *([date] if 0x132 in tags else []))
    res = round(xres[0] / xres[1])
    g.m("width_dpi", *([res] if 0x11A in tags and 1 <= res <= 10000 else []))
    g.m("height_dpi", *([res] if 0x11B in tags and 1 <= res <= 10000 else []))
    if 0x102 in tags and 0x115 in tags:
        g.m("bits_per_pixel", bps * spp)
    g.use(order, e, "spp%d" % spp)
    return g


def iptc_bytes(rng, g, prefix, base, texts):
    """IPTC records; returns bytes and the metadata values"""
    keys = {80: "author", 90: "city", 101: "country_name", 116: "copyright", 120: "caption", 105: "headline",
            110: "credit", 25: "keyword[0]"}
    out = b""
    meta = {}
    for k in rng.sample(sorted(keys), rng.randint(1, 5)):
        v = texts()
        g.at(prefix + "/" + keys[k], base + len(out), 5 + len(v))
        g.fs(prefix + "/" + keys[k] + "/", signature=0x1c, dataset_nb=2, tag=k, content=v)
        out += pack(">BBBH", 0x1c, 2, k, len(v)) + v.encode("latin-1")
        meta[k] = v
    return out, meta


def bim(ident, name, data):
    nm = bytes([len(name)]) + name
    if len(nm) % 2:
        nm += b"\0"
    return b"8BIM" + pack(">H", ident) + nm + pack(">I", len(data)) + data + b"\0" * (len(data) % 2)


@gen("image")
def psd(rng):
    g = G("psd", "psd")
    nch, depth = rng.randint(1, 5), rng.choice([1, 8, 16])
    w, h = pick_dim(rng), pick_dim(rng)
    mode = rng.choice([0, 1, 2, 3, 4, 7, 8, 9])
    md = rbytes(rng, rng.choice([0, 0, 768]))
    out = b"8BPS" + pack(">H6xHIIHH", 1, nch, h, w, depth, mode)
    g.fs("/", version=1, nb_channels=nch, width=w, height=h, depth=depth, color_mode=mode, mode_data_size=len(md))
    out += pack(">I", len(md)) + md
    items = []
    res = rng.randint(1, 600)
    if rng.random() < .7:
        items.append((0x3ed, "res_info", pack(">HHHHHHHH", res, 0, 1, 1, res, 0x8000, 1, 2)))
    if rng.random() < .5:
        items.append((0x40d, "glob_angle", pack(">I", rng.randrange(360))))
    if rng.random() < .5:
        items.append((0x414, "base_layer_id", pack(">I", rng.randrange(99))))
    if rng.random() < .5:
        items.append((0x40b, "url", b"http://" + word(rng, 3, 20).encode()))
    cfg = b""
    base = len(out) + 4
    for ident, name, data in items:
        b = bim(ident, b"", data)
        g.at("/config/" + name, base + len(cfg), len(b))
        g.fs("/config/" + name + "/", tag=ident)
        if name == "res_info":
            g.f("/config/res_info/content/horiz_res", float(res))
            g.f("/config/res_info/content/vert_res", res + .5)
        elif name in ("glob_angle", "base_layer_id"):
            g.f("/config/" + name + "/content", int.from_bytes(data, "big"))
        cfg += b
    out += pack(">I", len(cfg)) + cfg
    layers = rbytes(rng, rng.choice([0, 20, 77]))
    g.f("/reserved_data_size", len(layers))
    out += pack(">I", len(layers)) + layers
    comp = rng.randint(0, 1)
    g.f("/compression", comp)
    img = rbytes(rng, rng.randint(1, 300))
    g.at("/end", len(out) + 2, len(img))
    out += pack(">H", comp) + img
    g.data = out
    dim_meta(g, w, h)
    g.m("bits_per_pixel", depth * nch)
    g.m("pixel_format", {0: "Bitmap", 1: "Grayscale", 2: "Indexed", 3: "RGB color", 4: "CMYK color", 7: "Multichannel",
                         8: "Duotone", 9: "Lab Color"}[mode])
    g.m("compression", ["Raw data", "RLE"][comp])
    return g


@gen("image")
def xcf(rng):
    g = G("xcf", "xcf")
    ver = rng.choice([0, 0, 1, 3, 4, 6, 7, 10, 11, 12])
    ptr = ">Q" if ver >= 11 else ">I"
    w, h = pick_dim(rng), pick_dim(rng)
    typ = rng.randrange(3)
    texts = Texts(rng)
    comment = texts()
    out = b"gimp xcf file\0" if ver == 0 else b"gimp xcf v%03d\0" % ver
    out += pack(">III", w, h, typ)
    g.fs("/", width=w, height=h, type=typ)
    if ver >= 4:
        prec = rng.choice([0, 1, 2, 3, 4] if ver == 4 else [100, 150, 200, 250, 300, 350])
        out += pack(">I", prec)
        g.f("/precision", prec)
    n = [0]

    def prop(prefix, base, typ, data, **facts):
        p = prefix + "property[%d]" % n[0]
        g.at(p, base, 8 + len(data))
        g.fs(p + "/", type=typ, size=len(data))
        for k, v in facts.items():
            g.f(p + "/data/" + k.replace("__", "/").replace("_0_", "[0]"), v)
        n[0] += 1
        return pack(">II", typ, len(data)) + data
    comp = rng.randrange(4)
    if rng.random() < .7:
        out += prop("/", len(out), 17, bytes([comp]), compression=comp)
        g.m("compression", ["None", "RLE", "Zlib", "Fractal"][comp])
    xr, yr = rng.randint(1, 9000), rng.randint(1, 9000)
    if rng.random() < .7:
        out += prop("/", len(out), 19, pack(">ff", xr, yr), xres=float(xr), yres=float(yr))
        g.m("width_dpi", xr)
        g.m("height_dpi", yr)
    if rng.random() < .5:
        v = rng.getrandbits(32)
        out += prop("/", len(out), 20, pack(">I", v), tattoo=v)
    if rng.random() < .5:
        par = pack(">I", 13) + b"gimp-comment\0" + pack(">I", 1) + pack(">I", len(comment) + 1) + comment.encode() + b"\0"
        p = "/property[%d]/data/parasite[0]/" % n[0]
        out += prop("/", len(out), 21, par)
        g.fs(p, name="gimp-comment", flags=1, data=comment)
        g.m("comment", comment)
    out += prop("/", len(out), 0, b"")
    psize = 8 if ver >= 11 else 4
    nlay = rng.randint(1, 3)
    table = len(out)
    pos = table + psize * (nlay + 2)
    blobs = b""
    offs = []
    for i in range(nlay):
        lw, lh, lt = rng.randint(1, 500), rng.randint(1, 500), rng.randrange(3)
        name = texts()
        off = pos + len(blobs)
        offs.append(off)
        lay = pack(">III", lw, lh, lt) + pack(">I", len(name) + 1) + name.encode() + b"\0"
        n[0] = 0
        p = "/layer[%d]/" % i
        g.at("/layer[%d]" % i, off)
        g.fs(p, width=lw, height=lh, type=lt, name=name)
        opac = rbytes(rng, 4)
        lay += prop(p, off + len(lay), 6, opac, red=opac[0], alpha=opac[3])
        mode = rng.randrange(23)
        lay += prop(p, off + len(lay), 7, pack(">I", mode), mode=mode)
        v = rng.randrange(2)
        g.f(p + "property[%d]/data" % n[0], bool(v))
        lay += prop(p, off + len(lay), 8, pack(">I", v))
        x, y = rng.randrange(1000), rng.randrange(1000)
        lay += prop(p, off + len(lay), 15, pack(">II", x, y), ofst_x=x, ofst_y=y)
        lay += prop(p, off + len(lay), 0, b"")
        hier = off + len(lay) + 2 * psize
        lay += pack(ptr, hier) + pack(ptr, 0)
        g.fs(p, hierarchy_ofs=hier, mask_ofs=0)
        # hierarchy: one level, no tile data
        lev = hier + 12 + 2 * psize
        bpp = rng.randint(1, 4)
        lay += pack(">III", lw, lh, bpp) + pack(ptr, lev) + pack(ptr, 0)
        g.fs(p + "hierarchy/", width=lw, height=lh, bpp=bpp)
        g.at(p + "hierarchy/level[0]", lev)
        g.fs(p + "hierarchy/level[0]/", width=lw, height=lh)
        lay += pack(">II", lw, lh) + pack(">I", 0)
        blobs += lay
    for i, o in enumerate(offs):
        g.f("/layer_offset[%d]" % i, o)
        out += pack(ptr, o)
    out += pack(ptr, 0) + pack(ptr, 0)
    g.f("/channel_offset[0]", 0)
    g.data = out + blobs
    g.count("/layer", nlay)
    dim_meta(g, w, h)
    g.m("bits_per_pixel", {0: 24, 1: 8, 2: 8}[typ])
    g.m("format_version", {0: "RGB", 1: "Gray", 2: "Indexed"}[typ])
    g.use("v%d" % ver)
    return g


def exif_tiff(rng, g, prefix, base, texts):
    """TIFF structure of an Exif chunk, at byte `base`; returns (bytes, meta)"""
    e = rng.choice("<>")
    t = Tiff(rng, e)
    meta = {}

    def z(s):
        return s.encode("latin-1") + b"\0"
    date = rdate(rng)
    ent = []
    for tag, key in ((0x10E, "title"), (0x10F, "camera_manufacturer"), (0x110, "camera_model"), (0x131, "producer")):
        if rng.random() < .7:
            s = texts()
            ent.append((tag, 2, z(s)))
            meta[key] = [s]
    if rng.random() < .7:
        v = rng.randint(1, 8)
        ent.append((0x112, 3, [v]))
        meta["image_orientation"] = [{1: 'Horizontal (normal)', 2: 'Mirrored horizontal', 3: 'Rotated 180',
                                      4: 'Mirrored vertical',
                                      5: 'Mirrored horizontal then rotated 90 counter-clock-wise', 6: 'Rotated 90 clock-wise',
                                      7: 'Mirrored horizontal then rotated 90 clock-wise',
                                      8: 'Rotated 90 counter clock-wise'}[v]]
    if rng.random() < .5:
        ent.append((0x132, 2, date.strftime("%Y:%m:%d %H:%M:%S").encode() + b"\0"))
        meta["creation_date"] = [date]
    sub = []
    if rng.random() < .7:
        num, den = rng.randint(1, 50), rng.randint(1, 4000)
        sub.append((0x829A, 5, [(num, den)]))
        meta["camera_exposure"] = [num / den]
    if rng.random() < .7:
        num, den = rng.randint(1, 500), rng.randint(1, 40)
        sub.append((0x829D, 5, [(num, den)]))
        meta["camera_focal"] = [num / den]
    if rng.random() < .5:
        v = rng.choice([100, 200, 6400, 65535])
        sub.append((0x8827, 3, [v]))
        meta["iso_speed_ratings"] = [v]
    if rng.random() < .5:
        num, den = rng.randint(-500, 500), rng.randint(1, 40)
        sub.append((0x9203, 10, [(num, den)]))
        meta["camera_brightness"] = [num / den]
    gps = []
    if rng.random() < .5:
        la = [(rng.randrange(90), 1), (rng.randrange(60), 1), (rng.randrange(6000), 100)]
        lo = [(rng.randrange(180), 1), (rng.randrange(60), 1), (rng.randrange(6000), 100)]
        ns, ew = rng.choice("NS"), rng.choice("EW")
        alt, aref = (rng.randint(1, 90000), 10), rng.randrange(2)
        gps = [(1, 2, z(ns)), (2, 5, la), (3, 2, z(ew)), (4, 5, lo), (5, 1, [aref]), (6, 5, [alt])]

        def deg(v):
            return v[0][0] / v[0][1] + (v[1][0] / v[1][1] + v[2][0] / v[2][1] / 60) / 60
        meta["latitude"] = [deg(la) * (1 if ns == "N" else -1)]
        meta["longitude"] = [deg(lo) * (1 if ew == "E" else -1)]
        meta["altitude"] = [alt[0] / alt[1] * (-1 if aref else 1)]
    if sub:
        ent.append((0x8769, 4, [0]))
    if gps:
        ent.append((0x8825, 4, [0]))
    if not ent:
        ent.append((0x128, 3, [2]))
    ent.sort()
    size0 = len(tiff_ifd(G("x", "x"), t, "", 0, 8, ent))
    off1 = 8 + size0 + size0 % 2
    size1 = len(tiff_ifd(G("x", "x"), t, "", 0, off1, sub)) if sub else 0
    off2 = off1 + size1 + size1 % 2
    ent = [(tag, typ, [off1] if tag == 0x8769 else [off2] if tag == 0x8825 else v) for tag, typ, v in ent]
    out = (b"II" if e == "<" else b"MM") + pack(e + "HI", 42, 8)
    out += tiff_ifd(g, t, prefix + "/ifd[0]", base, 8, ent)
    if sub:
        out = out.ljust(off1, b"\0") + tiff_ifd(g, t, prefix + "/exif[0]", base, off1, sub)
    if gps:
        out = out.ljust(off2, b"\0") + tiff_ifd(g, t, prefix + "/exif_gps[0]", base, off2, gps)
    g.use("exif" + e, *(["gps"] if gps else []))
    return out, meta


def jpeg_entropy(rng, nblocks, ncomp, dc, ac):
    """entropy coded data of random blocks (DC difference and EOB only)"""
    bits = ""
    for _ in range(nblocks * ncomp):
        cat = rng.choice(sorted(dc))
        bits += dc[cat]
        if cat:
            v = rng.getrandbits(cat)
            bits += format(v, "0%db" % cat)
        for _ in range(rng.choice([0, 0, 0, 2])):
            bits += ac[0x01] + rng.choice("01")
        bits += ac[0]
    bits += "1" * (-len(bits) % 8)
    raw = bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))
    return raw.replace(b"\xff", b"\xff\0")


@gen("image")
def jpeg(rng):
    g = G("jpeg", "jpeg")
    texts = Texts(rng, "abcdefghijklmnopqrstuvwxyz0123456789.,;")
    out = b"\xff\xd8"
    sof = rng.choice([0xC0, 0xC0, 0xC1, 0xC2])
    ncomp = rng.choice([1, 3])
    w, h = (rng.randint(1, 60), rng.randint(1, 60)) if sof != 0xC2 else (pick_dim(rng), pick_dim(rng))
    prog = sof == 0xC2
    g.use("sof%x" % sof, "comp%d" % ncomp)

    def seg(name, marker, data):
        nonlocal out
        g.at("/" + name, len(out), 4 + len(data))
        g.f("/" + name + "/type", marker)
        g.f("/" + name + "/size", len(data) + 2)
        out += pack(">BBH", 0xFF, marker, len(data) + 2) + data
    meta = {}
    dpi = None
    if rng.random() < .6:
        units = rng.randrange(3)
        x, y = rng.randint(1, 9000), rng.randint(1, 9000)
        mj, mn = 1, rng.randrange(3)
        base = "/app0/content/"
        g.fs(base, jfif="JFIF\0", ver_maj=mj, ver_min=mn, units=units, thumb_w=0, thumb_h=0)
        g.fs(base, **({"aspect_x": x, "aspect_y": y} if not units else {"x_density": x, "y_density": y}))
        seg("app0", 0xE0, b"JFIF\0" + pack(">BBBHHBB", mj, mn, units, x, y, 0, 0))
        g.m("format_version", "JFIF %d.%02d" % (mj, mn))
        if units == 1:
            dpi = (x, y)
    if dpi:
        g.m("width_dpi", dpi[0])
        g.m("height_dpi", dpi[1])
    if rng.random() < .5:
        base = len(out) + 4
        sub, meta = exif_tiff(rng, g, "/exif/content", base + 6, texts)
        g.f("/exif/content/header", "Exif\0\0")
        seg("exif", 0xE1, b"Exif\0\0" + sub)
    iptc = None
    if rng.random() < .4:
        at = len(out) + 4 + 14
        data, iptc = iptc_bytes(rng, g, "/photoshop/content/iptc/content", at + 12, texts)
        g.at("/photoshop/content/iptc", at, 12 + len(data) + len(data) % 2)
        seg("photoshop", 0xED, b"Photoshop 3.0\0" + bim(0x404, b"", data))
        g.use("iptc")
    ncom = 0
    comments = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        c = texts()
        g.f("/comment[%d]/content/comment" % ncom, c)
        seg("comment[%d]" % ncom, 0xFE, c.encode())
        comments.append(c)
        ncom += 1
    nq = 1 if ncomp == 1 else 2
    for i in range(nq):
        q = bytes(rng.randint(1, 255) for _ in range(64))
        g.fs("/quantization[%d]/content/qt[0]/" % i, is_16bit=0, index=i)
        g.f("/quantization[%d]/content/qt[0]/coeff[0]" % i, q[0])
        g.f("/quantization[%d]/content/qt[0]/coeff[8]" % i, q[2])
        g.f("/quantization[%d]/content/qt[0]/coeff[63]" % i, q[63])
        seg("quantization[%d]" % i, 0xDB, bytes([i]) + q)
    g.fs("/start_frame/content/", precision=8, height=h, width=w, nr_components=ncomp)
    comps = b""
    for i in range(ncomp):
        comps += pack("BBB", i + 1, 0x11, min(i, nq - 1))
        g.fs("/start_frame/content/component[%d]/" % i, component_id=i + 1, horiz_sample=1, vert_sample=1,
             quant_table=min(i, nq - 1))
    seg("start_frame", sof, pack(">BHHB", 8, h, w, ncomp) + comps)
    # canonical tables: DC symbols of lengths 2,2,2,3 ; AC: EOB '0', (0,1) '10'
    dcsym = rng.sample(range(0, 9), 4)
    dc = dict(zip(dcsym, ("00", "01", "10", "110")))
    ac = {0: "0", 1: "10"}
    nh = 0
    for cls, counts, syms in ((0, [0, 3, 1] + [0] * 13, dcsym), (1, [1, 1] + [0] * 14, [0, 1])):
        p = "/huffman[%d]/content/huffman_table[0]/" % nh
        g.fs(p, table_class=cls, index=0)
        g.f(p + "count[2]", counts[1])
        g.f(p + "value[2][0]", syms[0] if cls == 0 else syms[1])
        seg("huffman[%d]" % nh, 0xC4, bytes([cls << 4]) + bytes(counts) + bytes(syms))
        nh += 1
    if prog:
        nscan = rng.randint(1, 3)
    else:
        nscan = 1
    for s in range(nscan):
        body = bytes([ncomp]) + b"".join(bytes([i + 1, 0]) for i in range(ncomp)) + bytes([0, 63, 0])
        g.f("/start_scan[%d]/content/nr_components" % s, ncomp)
        seg("start_scan[%d]" % s, 0xDA, body)
        if prog:
            data = rbytes(rng, rng.randint(20, 400)).replace(b"\xff", b"\xff\0")
        else:
            nb = ((w + 7) // 8) * ((h + 7) // 8)
            data = jpeg_entropy(rng, nb, ncomp, dc, ac)
        if s == 0:
            g.at("/image_data[0]", len(out), len(data))
        out += data
        if prog and s + 1 < nscan and rng.random() < .5:
            d = bytes([0x10, 1, 1] + [0] * 14 + [0, 1])
            out += pack(">BBH", 0xFF, 0xC4, len(d) + 2) + d
    g.use("scans%d" % nscan)
    g.at("/end_image", len(out), 2)
    out += b"\xff\xd9"
    g.data, g.size = out, len(out)
    dim_meta(g, w, h)
    g.m("bits_per_pixel", 8 * ncomp)
    g.m("compression", {0xC0: "JPEG (Baseline)", 0xC1: "JPEG (Extended sequential)", 0xC2: "JPEG (Progressive)"}[sof])
    g.m("pixel_format", "YCbCr" if ncomp == 3 else "Grayscale")
    names = {80: "author", 90: "city", 101: "country", 116: "copyright", 120: "title"}
    for k, v in (iptc or {}).items():
        if k in names:
            meta.setdefault(names[k], []).append(v)
    meta["comment"] = comments + [None]     # None: other values allowed (quality)
    for k, v in meta.items():
        g.m(k, *v)
    if iptc is not None and "producer" not in meta:
        g.m("producer", "Adobe Photoshop")
    return g
