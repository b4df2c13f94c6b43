"""OLE2 compound documents: sectors, chains, directory, mini stream, property sets."""
import datetime
import random
from vlib.gen import ALPHA, G, Texts, gen, pack, rbytes, word
from vlib.gen.windows import filetime, guid

FREE, END, FATSECT, DIFSECT = 0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFD, 0xFFFFFFFC
CODEPAGES = {1250: "cp1250", 1251: "cp1251", 1252: "cp1252", 1253: "cp1253", 1254: "cp1254", 1257: "cp1257", 10000: "mac_roman", 65001: "utf-8"}
CHARS = {1250: "\u0159\u0142\xe1", 1251: "\u0434\u0436\u042f", 1252: "\xe9\xe8\u20ac", 1253: "\u03b1\u03b2\u03a9", 1254: "\u015f\u0131\xe7",
         1257: "\u0101\u017e", 10000: "\xe9\xdf\xf8", 65001: "\xe9\u0434\u4e2d"}
COMPONENT = {2: "Title", 3: "Subject", 4: "Author", 5: "Keywords", 6: "Comments", 7: "Template", 8: "LastSavedBy", 9: "RevisionNumber",
             18: "AppName"}
COMPONENT_INT = {14: "NumPages", 15: "NumWords", 16: "NumCharacters", 19: "Security"}
COMPONENT_TIME = {11: "LastPrinted", 12: "CreateTime", 13: "LastSavedTime"}
DOCUMENT = {2: "Category", 3: "PresentationFormat", 14: "Manager", 15: "Company"}
DOCUMENT_INT = {4: "NumBytes", 5: "NumLines", 6: "NumParagraphs", 7: "NumSlides", 8: "NumNotes", 9: "NumHiddenSlides", 10: "NumMMClips"}
DOCUMENT_BOOL = {11: "Scale", 16: "LinksDirty"}
FMTID_SUMMARY = bytes.fromhex("e0859ff2f94f6810ab9108002b27b3d9")
FMTID_DOC = bytes.fromhex("02d5cdd59c2e1b10939708002b2cf9ae")
OS = {0: "Windows 16-bit", 1: "Macintosh", 2: "Windows 32-bit"}


def align(data, n=4):
    return data + bytes(-len(data) % n)


def lpstr(text, charset):
    raw = text.encode(charset) + b"\0"
    return pack("<I", len(raw)) + raw


def lpwstr(text):
    raw = (text + "\0").encode("utf-16-le")
    return pack("<I", len(raw) // 2) + raw


def property_set(rng, texts, doc, meta):
    """(stream, facts of its tree); adds the expected metadata to meta"""
    s = G("ole2:doc_summary" if doc else "ole2:summary", "ole2")
    cp = rng.choice(sorted(CODEPAGES) + [None])
    charset = CODEPAGES.get(cp, "ascii")
    chars = ALPHA + CHARS.get(cp, "")
    os_type = rng.choice([2, 2, 2, 0, 1])
    raw_id, text_id = guid(rng)
    out = b"\xFE\xFF" + pack("<HBBH", rng.choice([0, 1]), rng.randrange(256), rng.randrange(256), os_type) + raw_id
    nsect = 2 if doc and rng.random() < .4 else 1
    out += pack("<I", nsect)
    s.f("/endian", b"\xFE\xFF")
    s.fs("/", os_type=os_type, section_count=nsect, format_id=text_id)
    s.disp("/os_type", OS[os_type])
    meta["os"].append(OS[os_type])
    names = dict(DOCUMENT if doc else COMPONENT)
    ints = DOCUMENT_INT if doc else COMPONENT_INT
    ids = [i for i in names if rng.random() < .6] + [i for i in ints if rng.random() < .5]
    if doc:
        ids += [i for i in DOCUMENT_BOOL if rng.random() < .4] + [12] * (rng.random() < .3)
    else:
        ids += [i for i in COMPONENT_TIME if rng.random() < .6] + [10] * (rng.random() < .5) + [17] * (rng.random() < .3)
    rng.shuffle(ids)
    if cp is not None:
        ids.insert(0, 1)
    props = []      # (id, data)
    title = {2, 3} if not doc else set()
    author = {4, 8} if not doc else {14}
    for n, i in enumerate(ids):
        p = "/section[0]/property[%d]/" % n
        v = p + "value"
        if i == 1:
            data = pack("<IHH", 2, cp, 0)
            s.f(p + "type", 2)
            s.f(v, cp)
        elif i in names:
            text = texts() + word(rng, 1, 5, chars)
            if rng.random() < .25 and not (doc and i == 2):
                data = pack("<I", 31) + lpwstr(text)
                s.f(p + "type", 31)
                s.f(v + "/data", text + "\0")
                s.use("wide")
            else:
                data = pack("<I", 30) + lpstr(text, charset)
                s.f(p + "type", 30)
                s.f(v, text + "\0")
            key = ("title" if i in title else "author" if i in author else "producer" if i == 18 and not doc
                   else "comment" if i == 6 and not doc else None)
            if key:
                meta[key].append(text)
            else:
                meta["comment"].append("%s: %s" % (names[i], text))
        elif i in ints:
            value = rng.choice([0, 1, rng.randrange(100), rng.randrange(1 << 31)])
            if i == 14 and not doc:
                value = rng.randint(1, 9999)
            if i == 19 and rng.random() < .3:
                value = -rng.randint(1, 1 << 31)
            s.f(p + "type", 3)
            s.f(v, value)
            data = pack("<Ii", 3, value)
            if i == 14 and not doc:
                meta["nb_page"].append(value)
            else:
                meta["comment"].append("%s: %d" % (ints[i], value))
        elif doc and i in DOCUMENT_BOOL:
            flag = rng.random() < .5
            data = pack("<IhH", 11, -flag, 0)
            s.f(p + "type", 11)
            s.f(v, flag)
            meta["comment"].append("%s: %s" % (DOCUMENT_BOOL[i], flag))
        elif doc and i == 12:
            values = [rng.randrange(1 << 31) for _ in range(rng.randint(1, 4))]
            data = pack("<II", 0x1003, len(values)) + b"".join(pack("<i", x) for x in values)
            s.f(p + "is_vector", True)
            s.f(p + "count", len(values))
            for k, x in enumerate(values):
                s.f(p + "item[%d]" % k, x)
        elif i == 10:
            us = rng.randrange(1, 10 ** 12) * 10
            delta = datetime.timedelta(microseconds=us // 10)
            data = pack("<IQ", 64, us)
            s.f(v, delta)
            meta["comment"].append("TotalEditingTime: %s" % delta)
        elif i == 17:
            raw = rbytes(rng, rng.randrange(1, 60) * 4)
            data = pack("<II", 71, len(raw) + 12) + pack("<iI", -1, 3) + raw
            s.f(v + "/format", -1)
            s.f(v + "/dib_format", 3)
            s.f(v + "/size", len(raw) + 12)
        else:
            us, when = filetime(rng)
            data = pack("<IQ", 64, us)
            s.f(p + "type", 64)
            s.f(v, when)
            if i == 12:
                meta["creation_date"].append(when)
            elif i == 13:
                meta["last_modification"].append(when)
            else:
                meta["comment"].append("LastPrinted: %s" % when)
        props.append((i, align(data)))
    head = len(out) + 20 * nsect
    offset = 8 + 8 * len(props)
    index = body = b""
    for n, (i, data) in enumerate(props):
        s.fs("/section[0]/property_index[%d]/" % n, id=i, offset=offset + len(body))
        s.at("/section[0]/property[%d]" % n, head + offset + len(body))
        index += pack("<II", i, offset + len(body))
        body += data
    section = pack("<II", offset + len(body), len(props)) + index + body
    s.fs("/section[0]/", size=len(section), property_count=len(props))
    s.at("/section[0]", head, len(section))
    out += (FMTID_DOC if doc else FMTID_SUMMARY) + pack("<I", head)
    s.f("/section_index[0]/offset", head)
    if nsect == 2:
        out += rbytes(rng, 16) + pack("<I", head + len(section))
        flags = rng.randrange(1 << 31)
        section += pack("<IIIIIi", 24, 1, 5, 16, 3, flags)
        s.f("/section[1]/property[0]/value", flags)
        s.at("/section[1]", head + len(section) - 24, 24)
    return out + section, s


def compobj(rng, texts):
    s = G("ole2:compobj", "ole2")
    a, b, c = texts(), rng.choice(["MSWordDoc", "Biff8", ""]), "Word.Document.%d" % rng.randrange(10)
    raw, text = guid(rng)
    out = pack("<H", 1) + b"\xFE\xFF" + pack("<BBHi", 10, rng.randrange(256), 2, -1) + raw
    s.f("/clsid", text)
    for name, t in (("user_type", a), ("clipboard_format", b), ("prog_id", c)):
        s.at("/" + name, len(out))
        out += lpstr(t, "ascii") if t else pack("<I", 0)
        s.f("/" + name, t)
    s.f("/magic", 0x71B239F4)
    out += pack("<I", 0x71B239F4)
    for name, t in (("user_type_unicode", a), ("clipboard_format_unicode", b), ("prog_id_unicode", c)):
        s.at("/" + name, len(out))
        out += lpwstr(t) if t else pack("<I", 0)
        s.f("/%s" % name, t or None)
    return out, s


def entry(name, kind, color, left, right, child, clsid, created, modified, start, size, wide):
    raw = (name + "\0").encode("utf-16-le") if name else b""
    return (raw.ljust(64, b"\0") + pack("<HBBIII", len(raw), kind, color, left, right, child) + clsid + bytes(4)
            + pack("<QQI", created, modified, start) + (pack("<Q", size) if wide else pack("<II", size, 0)))


def runs(chain):
    out = []
    for s in chain:
        if out and out[-1][-1] + 1 == s:
            out[-1].append(s)
        else:
            out.append([s])
    return out


def sub_check(path, facts, data, unit):
    """the content of the fragments at `path`: whole sectors, whose first bytes are the stream"""
    from hachoir.parser import guessParser
    from vlib.facts import check_tree

    def check(parser):
        for p in path[:-1]:
            parser = guessParser(parser[p].getSubIStream())
        if parser is None:
            return [("ministream", "no parser")]
        list(parser)
        stream = parser[path[-1]].getSubIStream()
        size = -(-len(data) // unit) * unit
        bad = []
        if stream.size != size * 8:
            bad.append(("stream:size", "%s: %s bits instead of %d" % (path, stream.size, size * 8)))
        elif stream.readBytes(0, len(data)) != data:
            bad.append(("stream:content", "%s: other bytes" % (path,)))
        if facts is not None:
            sub = guessParser(parser[path[-1]].getSubIStream())
            if sub is None:
                bad.append(("stream:parser", "no parser for %s" % (path,)))
            else:
                bad += check_tree(facts, sub)
        return bad
    return check


def place(rng, chains, nfixed, fragmented):
    """sector numbers of each chain (lengths); returns (list of lists, number of sectors)"""
    pieces = []
    for c, n in enumerate(chains):
        i = 0
        while i < n:
            k = rng.randint(1, max(1, n // 3)) if fragmented else n
            k = min(k, n - i)
            pieces.append((c, i, k))
            i += k
    if fragmented:
        rng.shuffle(pieces)
    where = [[None] * n for n in chains]
    pos = nfixed
    for c, i, k in pieces:
        if rng.random() < .2:
            pos += rng.randint(1, 3)        # free sectors
        for j in range(k):
            where[c][i + j] = pos
            pos += 1
    return where, pos


@gen("misc")
def ole2(rng):
    g = G("ole2", "ole2")
    texts = Texts(rng)
    wide = rng.random() < .3
    shift = 12 if wide else 9
    big, mini = 1 << shift, 64
    g.use("v4" if wide else "v3")
    meta = {k: [] for k in ("title", "author", "comment", "creation_date", "last_modification", "nb_page", "producer", "os")}
    streams = []        # (name, field, data, facts)
    if rng.random() < .5:
        data, s = property_set(rng, texts, True, meta)
        streams.append(("\5DocumentSummaryInformation", "doc_summary", data, s))
    if rng.random() < .85:
        data, s = property_set(rng, texts, False, meta)
        streams.append(("\5SummaryInformation", "summary", data, s))
    if rng.random() < .4:
        data, s = compobj(rng, texts)
        streams.append(("\1CompObj", "compobj", data, s))
    for _ in range(rng.choice([0, 1, 2, 3])):
        size = rng.choice([0, 1, 63, 64, 65, 4095, 4096, 4097, rng.randrange(5000), rng.randrange(4096, 20000)])
        streams.append((texts()[:20] + word(rng, 1, 5), None, rbytes(rng, size), None))
    if not wide and rng.random() < .2:
        # property sets in big blocks
        streams = [(n, f, d + bytes(rng.choice([4096, 5000]) if s is not None and s.name != "ole2:compobj" else 0), s) for n, f, d, s in streams]
        g.use("big_summary")
    rng.shuffle(streams)
    for _, _, _, s in streams:
        if s is not None:
            g.use(*s.variant)
    fragmented = rng.random() < .6
    # mini stream
    small = [i for i, x in enumerate(streams) if 0 < len(x[2]) < 4096]
    mwhere, mcount = place(rng, [-(-len(streams[i][2]) // mini) for i in small], 0, fragmented)
    ministream = bytearray(rbytes(rng, mcount * mini))
    sfat = [FREE] * mcount
    for i, chain in zip(small, mwhere):
        data = streams[i][2].ljust(len(chain) * mini, b"\0")
        for k, s in enumerate(chain):
            ministream[s * mini:(s + 1) * mini] = data[k * mini:(k + 1) * mini]
            sfat[s] = chain[k + 1] if k + 1 < len(chain) else END
    per = big // 4
    storages = [texts()[:20] for _ in range(rng.choice([0, 0, 1]))]
    nprop = 1 + len(streams) + len(storages)
    ndir = -(-nprop * 128 // big)
    large = [i for i, x in enumerate(streams) if len(x[2]) >= 4096]
    chains = [ndir, -(-len(sfat) // per), -(-len(ministream) // big)] + [-(-len(streams[i][2]) // big) for i in large]
    # the FAT sectors come first (extra ones make a second level)
    nfat = rng.choice([0, 0, 0, 1])
    if not wide and rng.random() < .08:
        nfat = rng.randint(100, 112 + 2 * (per - 1))
    state = rng.getrandbits(64)
    while True:
        ndif = max(0, -(-(nfat - 109) // (per - 1)))
        where, total = place(random.Random(state), chains, nfat + ndif, fragmented)
        need = -(-total // per)
        if nfat >= need:
            break
        nfat = max(need, nfat + 1)
    if ndif:
        g.use("difat")
    fixed = list(range(nfat + ndif))
    if fragmented:
        rng.shuffle(fixed)
    fats, difs = fixed[:nfat], fixed[nfat:]
    fat = [FREE] * (nfat * per)
    for s in fats:
        fat[s] = FATSECT
    for s in difs:
        fat[s] = DIFSECT
    for chain in where:
        for k, s in enumerate(chain):
            fat[s] = chain[k + 1] if k + 1 < len(chain) else END
    sectors = {}

    def put(chain, data):
        for k, s in enumerate(chain):
            sectors[s] = data[k * big:(k + 1) * big].ljust(big, b"\0")

    # header
    clsid, clsid_text = guid(rng)
    raw = b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1" + clsid + pack("<HHHHH", 0x3E, 4 if wide else 3, 0xFFFE, shift, 6) + bytes(6)
    start = [c[0] if c else END for c in where]
    raw += pack("<IIIIIIIII", ndir if wide else 0, nfat, start[0], 0, 4096, start[1], chains[1], difs[0] if difs else END, ndif)
    raw += b"".join(pack("<I", fats[i] if i < nfat else FREE) for i in range(109))
    raw = raw.ljust(big, b"\0")
    g.f("/ole_id", b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1")
    g.fs("/header/", clsid=clsid_text, ver_min=0x3E, ver_maj=4 if wide else 3, bb_shift=shift, sb_shift=6, bb_count=nfat, bb_start=start[0],
         threshold=4096, sb_start=start[1], sb_count=chains[1], db_start=difs[0] if difs else END, db_count=ndif, csectdir=ndir if wide else 0)
    for i in range(0, 109, 9):
        g.f("/difat/index[%d]" % i, fats[i] if i < nfat else FREE)
    rest = fats[109:]
    for k, s in enumerate(difs):
        part = rest[k * (per - 1):(k + 1) * (per - 1)]
        words = part + [FREE] * (per - 1 - len(part)) + [difs[k + 1] if k + 1 < ndif else END]
        sectors[s] = b"".join(pack("<I", x) for x in words)
        g.f("/difat/index[%d]" % (109 + k * (per - 1)), words[0])
        g.at("/difat/index[%d]" % (109 + k * (per - 1)), (s + 1) * big, 4)
        g.f("/difat/difat[%d]" % k, words[-1])
    g.count("/bbfat", nfat)
    for k, s in enumerate(fats):
        words = fat[k * per:(k + 1) * per]
        sectors[s] = b"".join(pack("<I", x) for x in words)
        if k < 3 or k == nfat - 1:
            g.at("/bbfat[%d]" % k, (s + 1) * big, big)
            for j in rng.sample(range(per), 3):
                g.f("/bbfat[%d]/index[%d]" % (k, k * per + j), words[j])
                if words[j] in (FREE, END, FATSECT, DIFSECT):
                    g.disp("/bbfat[%d]/index[%d]" % (k, k * per + j), {FREE: "unused", END: "end of a chain", FATSECT: "BFAT sector (in a FAT)",
                                                                     DIFSECT: "DIFAT sector (in a FAT)"}[words[j]])
    put(where[1], b"".join(pack("<I", x) for x in sfat + [FREE] * (chains[1] * per - len(sfat))))
    g.count("/sfat", chains[1])
    for k, s in enumerate(where[1]):
        g.at("/sfat[%d]" % k, (s + 1) * big, big)
        for j in rng.sample(range(per), 2):
            n = k * per + j
            g.f("/sfat[%d]/index[%d]" % (k, n), sfat[n] if n < len(sfat) else FREE)
    put(where[2], bytes(ministream))
    for k, i in enumerate(large):
        put(where[3 + k], streams[i][2])
    # directory
    order = [("Root Entry", 5, start[2] if ministream else END, len(ministream), None)]
    for i, (name, field, data, s) in enumerate(streams):
        if not data:
            st = END
        elif i in small:
            st = mwhere[small.index(i)][0]
        else:
            st = where[3 + large.index(i)][0]
        order.append((name, 2, st, len(data), i))
    for name in storages:
        order.append((name, 1, 0, 0, None))
    directory = b""
    for k, (name, kind, st, size, i) in enumerate(order):
        created, when = filetime(rng) if kind != 2 else (0, None)
        modified, when2 = filetime(rng) if kind != 2 else (0, None)
        left, right, child = FREE, k + 1 if 0 < k < len(order) - 1 else FREE, 1 if k == 0 and len(order) > 1 else FREE
        cls, cls_text = guid(rng) if kind != 2 else (bytes(16), None)
        color = rng.randrange(2)
        directory += entry(name, kind, color, left, right, child, cls, created, modified, st, size, wide)
        p = "/property[%d]" % k
        sect = where[0][k * 128 // big]
        g.at(p, (sect + 1) * big + k * 128 % big, 128)
        g.fs(p + "/", name=name, namelen=2 * len(name) + 2, type=kind, decorator=color, left=left, right=right, child=child, start=st, size=size)
        g.disp(p + "/type", {1: "storage", 2: "stream", 5: "root"}[kind])
        g.disp(p + "/decorator", ("red", "black")[color])
        if kind != 2:
            g.fs(p + "/", clsid=cls_text, creation=when, lastmod=when2)
        field = "root" if kind == 5 else (streams[i][1] or "property[%d]content" % k) if i is not None else None
        if not size or field is None:
            continue
        if kind == 5 or i in large:
            chain = where[2] if kind == 5 else where[3 + large.index(i)]
            for n, run in enumerate(runs(chain)):
                g.at("/%s[%d]" % (field, n), (run[0] + 1) * big, len(run) * big)
            g.count("/" + field, len(runs(chain)))
            if kind != 5:
                g.checks.append(sub_check(["%s[0]" % field], streams[i][3], streams[i][2], big))
            else:
                g.checks.append(sub_check(["root[0]"], None, bytes(ministream), big))
        else:
            chain = mwhere[small.index(i)]
            m = G("ole2:mini", "ole2")
            for n, run in enumerate(runs(chain)):
                m.at("/%s[%d]" % (field, n), run[0] * mini, len(run) * mini)
            m.count("/" + field, len(runs(chain)))
            g.checks.append(sub_check(["root[0]"], m, bytes(ministream), big))
            g.checks.append(sub_check(["root[0]", "%s[0]" % field], streams[i][3], streams[i][2], mini))
    for k in range(len(order), ndir * big // 128):
        directory += entry("", 0, 0, FREE, FREE, FREE, bytes(16), 0, 0, 0, 0, wide)
        g.f("/property[%d]/type" % k, 0)
    g.count("/property", ndir * big // 128)
    put(where[0], directory)
    out = raw + b"".join(sectors[s] if s in sectors else rbytes(rng, big) for s in range(total))
    # the last sectors may be free ones: end the file with the last used one
    used = max(sectors) + 1
    g.data = out[:(used + 1) * big]
    g.size = len(g.data)
    for key, values in meta.items():
        g.m(key, *values)
    return g
