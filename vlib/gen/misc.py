"""Programs, disks and documents."""
import datetime
import struct

from vlib.gen import ALPHA, G, Texts, gen, pack, phrase, rbytes, word
from vlib.gen.archive import content


# ---------------------------------------------------------------------- FAT

UPPER = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-"


class FatImage:
    """A FAT12, FAT16 or FAT32 file system"""

    def __init__(self, rng, bits, g):
        self.rng, self.bits, self.g = rng, bits, g
        self.sector = rng.choice((512, 512, 512, 1024, 2048))
        self.spc = rng.choice((1, 1, 2, 4))
        self.cluster = self.sector * self.spc
        self.clusters = rng.randint(30, 120)
        self.eoc = (1 << min(28, bits)) - rng.randint(1, 8)
        self.table = {0: (1 << min(28, bits)) - 8, 1: self.eoc}
        order = list(range(2, self.clusters + 2))
        self.frag = rng.random()
        if self.frag < .4:
            g.use("contiguous")
        elif self.frag < .8:
            # small swaps
            for _ in range(rng.randint(1, 20)):
                i = rng.randrange(len(order) - 1)
                order[i], order[i + 1] = order[i + 1], order[i]
        else:
            rng.shuffle(order)
        self.free = order
        self.data = {}

    def alloc(self, body):
        """a chain for these bytes: list of clusters"""
        n = max(1, -(-len(body) // self.cluster))
        if n > len(self.free):
            return None
        chain, self.free = self.free[:n], self.free[n:]
        self.fill(chain, body)
        return chain

    def fill(self, chain, body):
        for i, c in enumerate(chain):
            part = body[i * self.cluster:(i + 1) * self.cluster]
            self.data[c] = part + self.slack(self.cluster - len(part))
            self.table[c] = chain[i + 1] if i + 1 < len(chain) else self.eoc

    def slack(self, n):
        return bytes(n)

    def fat(self, size):
        out = bytearray(size)
        for c, v in self.table.items():
            if self.bits == 12:
                pos = c * 3 // 2
                old = out[pos] | out[pos + 1] << 8
                old |= v << 4 if c & 1 else v
                out[pos:pos + 2] = struct.pack("<H", old)
            elif self.bits == 16:
                struct.pack_into("<H", out, c * 2, v & 0xFFFF)
            else:
                struct.pack_into("<I", out, c * 4, v | self.high)
        return bytes(out)


def fat_date(rng):
    return datetime.datetime(1980 + rng.randint(0, 127), rng.randint(1, 12), rng.randint(1, 28), rng.randrange(24),
                             rng.randrange(60), rng.randrange(30) * 2)


def fat_entry(rng, img, e, name, ext, attr, cluster, size, facts=True):
    """32 bytes; e is the path of the entry"""
    create, access, modify = fat_date(rng), fat_date(rng), fat_date(rng)
    cs = rng.choice((0, 0, 50, 99, 100, 199))
    date = [d.day | d.month << 5 | (d.year - 1980) << 9 for d in (create, access, modify)]
    time = [d.second // 2 | d.minute << 5 | d.hour << 11 for d in (create, modify)]
    res = rng.randrange(256)
    g = img.g
    if facts:
        g.fs(e, name=name, ext=ext, read_only=bool(attr & 1), hidden=bool(attr & 2), system=bool(attr & 4),
             volume_label=bool(attr & 8), directory=bool(attr & 16), archive=bool(attr & 32),
             cluster_lo=cluster & 0xFFFF, size=size)
        g.f(e + "reserved", bytes([res]))
        full = create + datetime.timedelta(milliseconds=cs * 10)
        g.desc(e + "create", full.isoformat(" ") if full.microsecond else str(full))
        g.desc(e + "access", str(access.date()))
        g.desc(e + "modify", str(modify))
        g.fs(e + "create/", day=create.day, month=create.month, year=create.year - 1980, hour=create.hour, min=create.minute,
             cs=cs)
        g.f(e + "modify/2sec", modify.second // 2)
        if img.bits == 32:
            g.f(e + "cluster_hi", cluster >> 16)
        g.desc(e[:-1], "File: '%s%s%s'" % (name, "." + ext if ext else "", "/" if attr & 16 else ""))
    return pack("<8s3sBBBHHHHHHHI", name.encode().ljust(8), ext.encode().ljust(3), attr, res, cs, time[0], date[0], date[1],
                cluster >> 16 if img.bits == 32 else rng.choice((0, 0, 5)), time[1], date[2], cluster & 0xFFFF, size)


def fat_lfn(rng, img, e, text, seq, last):
    raw = text.encode("utf-16-le")
    if len(text) < 13:
        raw += b"\0\0"
    raw = raw.ljust(26, b"\xff")
    no = seq | (0x40 if last else 0)
    sum_ = rng.randrange(256)
    g = img.g
    g.fs(e, seq_no=no, magic=15, checksum=sum_, first_cluster=0)
    g.desc(e[:-1], "Long filename part: '%s' [%u]" % (text, no))
    return bytes([no]) + raw[:10] + b"\x0f\0" + bytes([sum_]) + raw[10:22] + b"\0\0" + raw[22:26]


def fat_directory(rng, img, path, depth, slots, parent=None, per_cluster=None):
    """Entries of a directory as (bytes), the files are allocated.  `path` is a
    function index -> path of the entry"""
    out = []
    g = img.g

    def here():
        return path(len(out))
    if parent is not None:
        own, up = parent
        out.append(fat_entry(rng, img, here(), ".", "", 16, own, 0, False))
        out.append(fat_entry(rng, img, here(), "..", "", 16, up, 0, False))
    elif rng.random() < .5:
        label = word(rng, 1, 8, UPPER)
        out.append(fat_entry(rng, img, here(), label, "", 8, 0, 0))
    used = set()
    for _ in range(rng.choice((0, 1, 2, 4, 8, 20))):
        if len(out) + 4 > slots:
            break
        name = word(rng, 1, 8, UPPER)
        ext = rng.choice(("", "TXT", "BIN", word(rng, 1, 3, UPPER)))
        if name in used:
            continue
        used.add(name)
        r = rng.random()
        if r < .1:
            g.use("deleted entry")
            e = here()
            g.desc(e[:-1], "Deleted file")
            g.absent(e + "data")
            out.append(b"\xe5" + fat_entry(rng, img, e, name, ext, 32, rng.randint(2, 90), rng.randint(1, 9000), False)[1:])
            continue
        if r < .35:
            g.use("long names")
            text = phrase(rng, 1, 5)[:39]
            parts = [text[i:i + 13] for i in range(0, len(text), 13)]
            if len(out) + len(parts) + 1 > slots:
                break
            for k in range(len(parts), 0, -1):
                out.append(fat_lfn(rng, img, here(), parts[k - 1], k, k == len(parts)))
        e = here()
        if rng.random() < .2 and depth:
            g.use("sub-directory")
            n = rng.choice((1, 1, 2, 3))
            if n > len(img.free):
                continue
            chain, img.free = img.free[:n], img.free[n:]
            per = img.cluster // 32

            def sub(i, e=e, per=per):
                return e + "data/" + "next/" * (i // per) + "entry[%d]/" % (i % per)
            body = b"".join(fat_directory(rng, img, sub, depth - 1, n * per, (chain[0], 0)))
            img.fill(chain, body.ljust(n * img.cluster, b"\0"))
            out.append(fat_entry(rng, img, e, name, ext, 16, chain[0], 0))
            for i, c in enumerate(chain):
                g.late.append((e + "data" + "/next" * i, c))
            continue
        body = content(rng) if rng.random() < .85 else b""
        attr = rng.choice((0, 32, 32, 33, 39))
        if not body:
            g.use("empty file")
            out.append(fat_entry(rng, img, e, name, ext, attr, 0, 0))
            g.absent(e + "data")
            continue
        if rng.random() < .3:
            # a whole number of clusters
            body = body[:len(body) // img.cluster * img.cluster] or rbytes(rng, img.cluster)
        chain = img.alloc(body)
        if chain is None:
            body = body[:img.cluster]
            chain = img.alloc(body)
            if chain is None:
                continue
        if any(b != a + 1 for a, b in zip(chain, chain[1:])):
            g.use("fragmented file")
        if len(chain) > 1:
            g.use("several clusters")
        out.append(fat_entry(rng, img, e, name, ext, attr, chain[0], len(body)))
        g.part(e + "data", body)
        for i, c in list(enumerate(chain))[:6]:
            g.late.append((e + "data" + "/next" * i, c))
    return out


def fat(rng, bits):
    g = G("fat%d" % bits, "fat%d" % bits)
    g.late = []
    img = FatImage(rng, bits, g)
    img.high = rng.choice((0, 0, 0x30000000)) if bits == 32 else 0
    if img.high:
        g.use("reserved high bits")
    nfat = rng.choice((1, 2, 2))
    need = {12: (img.clusters + 2) * 3 // 2 + 2, 16: (img.clusters + 2) * 2, 32: (img.clusters + 2) * 4}[bits]
    fat_size = -(-need // img.sector) + rng.choice((0, 0, 1))
    if bits == 12 and img.sector * fat_size * 2 % 3:
        # a whole number of entries
        fat_size = -(-fat_size // 3) * 3
    reserved = rng.choice((1, 1, 2, 8)) if bits != 32 else rng.choice((8, 32))
    total = 0
    if bits == 32:
        n = rng.choice((1, 1, 2))
        if rng.random() < .5:
            chain, img.free = img.free[:n], img.free[n:]
        else:
            chain = [2] + [c for c in img.free if c != 2][:n - 1]
            img.free = [c for c in img.free if c not in chain]
        per = img.cluster // 32
        entries = fat_directory(rng, img, lambda i: "root/" + "next/" * (i // per) + "entry[%d]/" % (i % per), 2, n * per)
        img.fill(chain, b"".join(entries).ljust(n * img.cluster, b"\0"))
        root_start = chain[0]
        max_root = 0
        root = b""
        if n > 1:
            g.use("root directory of several clusters")
    else:
        max_root = rng.choice((16, 64, 112, 224, 512)) * (img.sector // 512)
        entries = fat_directory(rng, img, lambda i: "root[0]/entry[%d]/" % i, 2, max_root)
        root = b"".join(entries).ljust(max_root * 32, b"\0")
        root_start = 0
    total = reserved + nfat * fat_size + len(root) // img.sector + img.clusters * img.spc
    oem = word(rng, 1, 8)
    label = word(rng, 1, 11, UPPER)
    serial, hidden, media = rng.getrandbits(32), rng.randrange(1 << 20), rng.choice((0xF8, 0xF0))
    track, heads, drive = rng.randrange(1, 64), rng.randrange(1, 256), rng.choice((0, 0x80))
    small = rng.random() < .7 and bits != 32
    head = pack("<3s8sHBHBHHBHHHII", b"\xeb\x3c\x90", oem.encode().ljust(8), img.sector, img.spc, reserved, nfat, max_root,
                total if small else 0, media, fat_size if bits != 32 else 0, track, heads, hidden, 0 if small else total)
    info, copy = 1, rng.choice((6, 6, 2, 0))
    if bits == 32:
        flags, version = rng.choice((0, 0x80)), 0
        head += pack("<IHHIHH12x", fat_size, flags, version, root_start, info, copy)
        g.fs("boot/", fat32_size=fat_size, fat_flags=flags, root_start=root_start, inf_sector=info, boot_copy=copy)
    head += pack("<BBBI11s8s", drive, 0, 0x29, serial, label.encode().ljust(11), b"FAT%-5d" % bits)
    boot = head.ljust(510, b"\x90") + b"\x55\xaa"
    g.fs("boot/", oem_name=oem.ljust(8), sector_size=img.sector, cluster_size=img.spc, reserved_sectors=reserved, fat_nb=nfat,
         max_root=max_root, sectors1=total if small else 0, media_desc=media, fat_size=fat_size if bits != 32 else 0,
         track_size=track, head_nb=heads, hidden=hidden, sectors2=0 if small else total, phys_drv=drive, sign=0x29,
         serial=serial, label=label, fs_type="FAT%d" % bits)
    area = bytearray(boot.ljust(reserved * img.sector, b"\0"))
    if bits == 32:
        free, nxt = rng.getrandbits(16), rng.getrandbits(10)
        fs = b"RRaA" + bytes(480) + b"rrAa" + pack("<II12x", free, nxt) + b"\0\0\x55\xaa"
        area[img.sector:img.sector + 512] = fs
        g.fs("fsinfo/", lead_sig="RRaA", struct_sig="rrAa", free_count=free, nxt_free=nxt)
        g.at("fsinfo", img.sector, 512)
        if copy:
            area[copy * img.sector:copy * img.sector + 512] = boot
            g.at("bkboot", copy * img.sector, 512)
            g.f("bkboot/serial", serial)
    table = img.fat(fat_size * img.sector)
    g.count("fat", nfat)
    for i in range(nfat):
        g.at("fat[%d]" % i, (reserved + i * fat_size) * img.sector, fat_size * img.sector)
    for c in rng.sample(sorted(img.table), min(8, len(img.table))):
        v = img.table[c] | (img.high if bits == 32 else 0)
        g.f("fat[%d]/entry[%d]" % (rng.randrange(nfat), c), v & ((1 << bits) - 1))
    start = (reserved + nfat * fat_size) * img.sector
    if root:
        g.at("root[0]", start, len(root))
    start += len(root)
    for path, c in g.late:
        g.at(path, start + (c - 2) * img.cluster, img.cluster)
    used = max([c for c in img.data] or [1])
    body = b"".join(img.data.get(c, bytes(img.cluster)) for c in range(2, img.clusters + 2))
    g.data = bytes(area) + table * nfat + root + body
    g.variant.append("sector %d, %d sectors per cluster" % (img.sector, img.spc))
    assert used < img.clusters + 2 and len(g.data) == total * img.sector
    return g


for _bits in (12, 16, 32):
    gen("misc", "fat%d" % _bits)(lambda rng, bits=_bits: fat(rng, bits))


# ---------------------------------------------------------------------- MBR

@gen("misc")
def mbr(rng):
    g = G("mbr", "msdos_harddrive")
    names = {1: "FAT12", 6: "FAT16", 7: "HPFS/NTFS", 0x82: "Linux swap / Solaris", 0x83: "Linux (ext2/ext3)", 0x8e: "Linux LVM"}
    out = bytearray(512)
    out[0:446] = rbytes(rng, 446)
    n = rng.randint(1, 4)
    pos = rng.choice((1, 1, 4, 63))
    slots = rng.sample(range(4), n)
    if slots != sorted(slots):
        g.use("entries in another order than the partitions")
    recs = [bytes(16)] * 4
    boot = rng.choice(slots + [None])
    order = []
    ext = rng.choice(slots) if rng.random() < .4 else None
    for i in slots:
        size = rng.randint(1, 20)
        if i == ext:
            size += 10
        if rng.random() < .3:
            pos += rng.randint(1, 9)
            g.use("gap")
        body = bytearray(rbytes(rng, size * 512))
        sysid = rng.choice(sorted(names))
        e = "mbr/header[%d]/" % i
        p = "partition[%d]" % i
        if i == ext:
            sysid = 5
            g.use("extended partition")
            body = logical(rng, g, size, p, names)
        recs[i] = record(rng, g, e, sysid, pos, size, i == boot, {**names, 5: "Extended"}[sysid])
        g.at(p, pos * 512, size * 512)
        if sysid != 5:
            g.f(p, bytes(body))
            g.desc(p, names[sysid])
        out += bytes(pos * 512 - len(out)) + body
        order.append(p)
        pos += size
    for i in range(4):
        if i not in slots:
            g.f("mbr/header[%d]/system" % i, 0)
            g.desc("mbr/header[%d]" % i, "Partition header: (unused)")
            g.absent("partition[%d]" % i)
    out[446:510] = b"".join(recs)
    out[510:512] = b"\x55\xaa"
    if rng.random() < .4:
        g.use("space at the end")
        end = rng.randint(1, 5) * 512
        g.at("end", len(out), end)
        out += bytes(end)
    g.f("mbr/program", bytes(out[:446]))
    g.disp("mbr/signature", "0xaa55")
    g.data = bytes(out)
    return g


def record(rng, g, e, sysid, lba, size, boot, name):
    """16 bytes of a partition table"""
    from hachoir.core.tools import humanFilesize
    hs, ss, cs = rng.randrange(256), rng.randint(1, 63), rng.randrange(1024)
    he, se, ce = rng.randrange(256), rng.randint(1, 63), rng.randrange(1024)
    g.fs(e, bootable=0x80 if boot else 0, start_head=hs, start_sector=ss, start_cylinder=cs, system=sysid, end_head=he,
         end_sector=se, end_cylinder=ce, LBA=lba, size=size)
    g.disp(e + "system", name)
    g.desc(e[:-1], "Partition header: %s, %s" % (name, humanFilesize(size * 512)))
    return bytes([0x80 if boot else 0, hs, ss | cs >> 8 << 6, cs & 255, sysid, he, se | ce >> 8 << 6, ce & 255]) + pack(
        "<II", lba, size)


def logical(rng, g, size, path, names):
    """an extended partition with one logical partition: its first sector is
    a partition table too"""
    out = bytearray(rbytes(rng, size * 512))
    start = rng.randint(1, 3)
    n = rng.randint(1, size - start)
    sysid = rng.choice(sorted(names))
    rec = record(rng, g, path + "/mbr/header[0]/", sysid, start, n, False, names[sysid])
    out[446:510] = rec + bytes(48)
    out[510:512] = b"\x55\xaa"
    g.f(path + "/partition[0]", bytes(out[start * 512:(start + n) * 512]))
    return out


# --------------------------------------------------------------- linux swap

@gen("misc")
def linux_swap(rng):
    g = G("linux_swap", "linux_swap")
    last = rng.randint(1, 12)
    nbad = rng.choice((0, 0, 1, 2, 5)) if last > 5 else 0
    bad = sorted(rng.sample(range(1, last + 1), nbad))
    uuid, volume = rbytes(rng, 16), word(rng, 0, 16)
    magic = rng.choice((b"SWAPSPACE2", b"S1SUSPEND\0", b"SWAP-SPACE"))
    boot = rbytes(rng, 1024)
    head = boot + pack("<III16s16s468x", 1, last, nbad, uuid, volume.encode())
    head += b"".join(pack("<I", b) for b in bad)
    pages = [rbytes(rng, 64) * 64 for _ in range(last)]
    g.data = head.ljust(4086, b"\0") + magic + b"".join(pages)
    if rng.random() < .3:
        g.use("space at the end")
        g.data += bytes(rng.randint(1, 5000))
    g.fs("", boot=boot, version=1, last_page=last, nb_badpage=nbad, sws_uuid=uuid, sws_volume=volume.encode().ljust(16, b"\0"),
         magic=magic.decode())
    h = uuid.hex()
    g.disp("sws_uuid", "-".join((h[:8], h[8:12], h[12:16], h[16:20], h[20:])))
    for i, b in enumerate(bad):
        g.f("badpages/badpage[%d]" % i, b)
    for i, p in enumerate(pages):
        g.f("pages/page[%d]" % i, p)
        g.at("pages/page[%d]" % i, 4096 * (i + 1), 4096)
    g.count("pages/page", last)
    g.use(magic.decode().strip("\0"), "%d bad pages" % nbad)
    g.description = "%s, page size: 4096 bytes, %d pages" % (
        {b"SWAPSPACE2": "Linux swap file version 2", b"SWAP-SPACE": "Linux swap file version 1",
         b"S1SUSPEND\0": "Suspend swap file version 1"}[magic], last - nbad)
    return g


# ------------------------------------------------------------------ torrent

def bencode(v):
    if isinstance(v, int):
        return b"i%de" % v
    if isinstance(v, str):
        v = v.encode("latin-1")
    if isinstance(v, bytes):
        return b"%d:%s" % (len(v), v)
    if isinstance(v, list):
        return b"l" + b"".join(map(bencode, v)) + b"e"
    return b"d" + b"".join(bencode(k) + bencode(x) for k, x in v.items()) + b"e"


def torrent_facts(g, path, v):
    """path of the field of the value"""
    if isinstance(v, list):
        for i, x in enumerate(v):
            torrent_facts(g, "%s/item[%d]" % (path, i), x)
        g.count(path + "/item", len(v))
    elif isinstance(v, dict):
        for k, x in v.items():
            name = "%s/%s" % (path, k.replace(" ", "_"))
            if k == "creation date":
                g.f(name, datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=x))
            torrent_facts(g, name + "/value", x)
            g.f(name + "/key", k)
    elif isinstance(v, bytes):
        g.f(path + "/value", v if len(v) >= 512 else v.decode("latin-1"))
    elif v != "":
        g.f(path, v)
        if isinstance(v, str):
            g.fs(path + "/", length=str(len(v)), value=v)


@gen("misc")
def torrent(rng):
    from hachoir.core.tools import humanFilesize
    g = G("torrent", "torrent")
    t = Texts(rng)
    url = "http://%s.example.org:%d/announce" % (word(rng), rng.randint(1, 65535))
    root = {"announce": url}
    g.m("url", url)
    if rng.random() < .4:
        root["announce-list"] = [["http://%s/" % word(rng) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 3))]
        g.use("announce list")
    comments = []
    if rng.random() < .6:
        root["comment"] = t()
        comments.append(root["comment"])
    if rng.random() < .6:
        root["created by"] = t()
    if rng.random() < .6:
        root["creation date"] = rng.choice((0, rng.getrandbits(31), rng.randint(946684800, 1700000000)))
        d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=root["creation date"])
        if 1971 < d.year < 2026:
            g.m("creation_date", d)
    if rng.random() < .3:
        root["depth"] = [[[], {}], {"a": {"b": [1, -5, 0, {"c": "deep"}]}}]
        g.use("nested")
    plen = rng.choice((16384, 262144, 1 << 20, rng.randint(1, 1 << 30)))
    info = {}
    if rng.random() < .6:
        g.use("one file")
        info["length"] = rng.choice((0, 1, 1000, rng.getrandbits(31), 5_000_000_000, rng.getrandbits(48)))
        g.m("file_size", info["length"]) if info["length"] else None
    else:
        g.use("several files")
        info["files"] = [{"length": rng.getrandbits(33), "path": [word(rng) for _ in range(rng.randint(1, 3))]}
                         for _ in range(rng.randint(1, 6))]
    name = t()
    info["name"] = name
    g.m("filename", name)
    info["piece length"] = plen
    g.disp("root/info/value/piece_length", humanFilesize(plen))
    comments.append("Piece length: " + humanFilesize(plen))
    g.m("comment", *comments)
    pieces = rbytes(rng, 20 * rng.randint(1, 60))
    info["pieces"] = pieces
    if rng.random() < .3:
        info["private"] = 1
    root["info"] = info
    if rng.random() < .3:
        root["url-list"] = ""
        g.use("empty string")
    torrent_facts(g, "root", root)
    g.data = bencode(root)
    return g


# ------------------------------------------------------- binary property list

def plist_value(rng, depth):
    r = rng.random()
    if depth and r < .2:
        return [plist_value(rng, depth - 1) for _ in range(rng.choice((0, 1, 2, 5, 14, 15, 16, 20)))]
    if depth and r < .4:
        return {("%d " % i if rng.random() < .3 else "%d\u00e9" % i) + word(rng): plist_value(rng, depth - 1)
                for i in range(rng.choice((0, 1, 2, 5, 14, 15, 16)))}
    return rng.choice((
        lambda: rng.randrange(256), lambda: rng.randrange(1 << 16), lambda: rng.getrandbits(31), lambda: 0xFFFFFFFF,
        lambda: rng.getrandbits(62), lambda: -rng.randint(1, 1 << 62), lambda: -1, lambda: True, lambda: False,
        lambda: rng.uniform(-1e9, 1e9), lambda: rng.randrange(1 << 20) / 64,
        lambda: datetime.datetime(2001, 1, 1) + datetime.timedelta(seconds=rng.randint(-86400 * 3000, 86400 * 9000)),
        lambda: rbytes(rng, rng.choice((1, 14, 15, 16, 100, 255, 256, 300))), lambda: b"",
        lambda: phrase(rng), lambda: word(rng, 14, 17), lambda: "<a & b>" + word(rng), lambda: "", lambda: "\u20ac" + word(rng, 1, 40),
        lambda: "x" * rng.choice((255, 256, 300)),
    ))()


def plist_marker(kind, n):
    if n < 15:
        return bytes([kind << 4 | n])
    k = 0 if n < 256 else 1 if n < 65536 else 2
    return bytes([kind << 4 | 15, 0x10 | k]) + n.to_bytes(1 << k, "big")


@gen("misc")
def bplist(rng):
    g = G("bplist", "bplist")
    top = plist_value(rng, 3)
    if not isinstance(top, (dict, list)) and rng.random() < .8:
        top = {"key": top}
    objs = []

    def flat(v):
        """index of the value"""
        if rng.random() < .3:
            for i, (w, _) in enumerate(objs):
                if type(w) is type(v) and not isinstance(v, (dict, list)) and w == v:
                    return i
        i = len(objs)
        objs.append([v, None])
        if isinstance(v, list):
            objs[i][1] = [flat(x) for x in v]
        elif isinstance(v, dict):
            ks = [flat(k) for k in v]
            objs[i][1] = ks + [flat(x) for x in v.values()]
        return i
    flat(top)
    if len(objs) > 600:
        return bplist(rng)
    # the numbers of the objects
    order = list(range(len(objs)))
    if rng.random() < .5:
        rng.shuffle(order)
        g.use("top object is not the first")
    num = {old: new for new, old in enumerate(order)}
    refsize = 1 if len(objs) < 256 and rng.random() < .8 else 2
    g.use("references of %d bytes" % refsize)
    body = b""
    out = bytearray(b"bplist00")
    place = list(order)
    if rng.random() < .3:
        rng.shuffle(place)
        g.use("objects in another order in the file")
    off = {}
    for old in place:
        v, refs = objs[old]
        p = "object[%d]" % num[old]
        off[num[old]] = len(out)
        kind = None
        if isinstance(v, bool):
            body = b"\x09" if v else b"\x08"
            g.f(p + "/value", 9 if v else 8)
            g.disp(p, "True" if v else "False")
        elif isinstance(v, int):
            k = 0 if 0 <= v < 256 else 1 if 0 <= v < 65536 else 2 if 0 <= v < 1 << 32 else 3
            if v >= 0 and rng.random() < .1:
                k = 3
            body = bytes([0x10 | k]) + v.to_bytes(1 << k, "big", signed=v < 0)
            g.f(p, v)
        elif isinstance(v, float):
            if struct.unpack(">f", struct.pack(">f", v))[0] == v:
                body = b"\x22" + pack(">f", v)
            else:
                body = b"\x23" + pack(">d", v)
            g.f(p, v)
        elif isinstance(v, datetime.datetime):
            s = (v - datetime.datetime(2001, 1, 1)).total_seconds()
            body = b"\x33" + pack(">d", s)
            g.f(p, s)
            g.disp(p, v.strftime("%Y-%m-%d %H:%M:%S"))
        elif isinstance(v, bytes):
            body = plist_marker(4, len(v)) + v
            kind = v
            if v:
                g.f(p, v)
        elif isinstance(v, str):
            kind = v
            try:
                body = plist_marker(5, len(v)) + v.encode("ascii")
            except UnicodeEncodeError:
                body = plist_marker(6, len(v)) + v.encode("utf-16-be")
            g.f(p, v)
        else:
            kind = v
            body = plist_marker(10 if isinstance(v, list) else 13, len(v))
            names = ["ref[%d]" % i for i in range(len(v))]
            if isinstance(v, dict):
                names = ["keyref[%d]" % i for i in range(len(v))] + ["valref[%d]" % i for i in range(len(v))]
            for name, r in zip(names, refs):
                g.f("%s/value/%s" % (p, name), num[r])
                body += num[r].to_bytes(refsize, "big")
            if not v:
                g.use("empty container")
        if kind is not None:
            g.f(p + "/size", len(kind))
            if len(kind) >= 15:
                g.use("long size")
        g.at(p, len(out), len(body))
        out += body
    table = len(out)
    osize = 1 if table < 256 else 2 if table < 65536 else 3 if rng.random() < .5 else 4
    if rng.random() < .2:
        osize = max(osize, rng.choice((2, 4, 8)))
    g.use("offsets of %d bytes" % osize)
    for i in range(len(objs)):
        out += off[i].to_bytes(osize, "big")
        g.f("offset_table/offset[%d]" % i, off[i])
    out += pack(">6xBBQQQ", osize, refsize, len(objs), num[0], table)
    g.count("object", len(objs))
    g.fs("trailer/", offsetIntSize=osize, objectRefSize=refsize, numObjects=len(objs), topObject=num[0], offsetTableOffset=table)
    g.data = bytes(out)

    def xml(parser):
        import plistlib
        text = parser.createXML()
        got = plistlib.loads(text.encode("utf-8"), fmt=plistlib.FMT_XML)
        if got != top:
            return [("xml", "createXML() gives %.200r instead of %.200r" % (got, top))]
        if parser["/object[%d]" % num[0]].display != show(top):
            return [("display", "display of the top object: %.200r instead of %.200r" % (
                parser["/object[%d]" % num[0]].display, show(top)))]
        return []

    def show(v):
        if isinstance(v, list):
            return "[" + ", ".join(map(show, v)) + "]"
        if isinstance(v, dict):
            return "{" + ", ".join("%s: %s" % (show(k), show(x)) for k, x in v.items()) + "}"
        if isinstance(v, datetime.datetime):
            return v.strftime("%Y-%m-%d %H:%M:%S")
        return parser_display(v)

    def parser_display(v):
        if isinstance(v, (bytes, float, str)):
            return DISPLAY.get(repr(v))
        return str(v)
    DISPLAY = {}

    def checks(parser):
        for i, (v, _) in enumerate(objs):
            if isinstance(v, (bytes, float, str)):
                DISPLAY[repr(v)] = parser["/object[%d]" % num[i]].display
        return xml(parser)
    g.checks.append(checks)
    return g


# ---------------------------------------------------------------------- ELF

@gen("misc")
def elf(rng):
    g = G("elf", "elf")
    big, wide = rng.random() < .5, rng.random() < .5
    o = ">" if big else "<"
    g.use("%s endian, %d bits" % ("big" if big else "little", 64 if wide else 32))
    ehsize, phsize, shsize = (64, 56, 64) if wide else (52, 32, 40)
    nph, nsec = rng.choice((0, 1, 2, 5)), rng.choice((0, 2, 3, 6, 12))
    t = Texts(rng)
    secs = [dict(name="", type=0, flags=0, addr=0, size=0, link=0, info=0, align=0, ent=0, data=b"")] if nsec else []
    types = {1: "Program defined information", 2: "Symbol table section", 4: "Relocation section with addends",
             7: "Note section", 8: "Block started by symbol (BSS) or No space section", 11: "Dynamic symbol table section"}
    for i in range(1, nsec):
        data = rbytes(rng, rng.choice((0, 1, 5, 16, 100)))
        ty = rng.choice(sorted(types))
        size = len(data)
        if ty == 8:
            size, data = rng.randint(1, 1 << 20), b""
        secs.append(dict(name=rng.choice((".text", ".data", ".bss", "." + word(rng, 1, 9), t(1, 1))), type=ty,
                         flags=rng.getrandbits(3) | rng.getrandbits(8) << 4 | rng.getrandbits(12) << 20, addr=rng.getrandbits(31),
                         size=size, link=rng.randrange(9), info=rng.randrange(99), align=rng.choice((1, 4, 16)),
                         ent=rng.choice((0, 16, 24)), data=data))
    shstr = 0
    if secs:
        shstr = rng.randrange(1, nsec)
        table, pos = b"\0", {"": 0}
        for s in secs:
            if s["name"] not in pos:
                # a name may be the end of another one
                pos[s["name"]] = len(table)
                table += s["name"].encode() + b"\0"
        secs[shstr].update(type=3, data=table, size=len(table))
        if rng.random() < .2 and nsec > 2:
            g.use("name inside another name")
            i = rng.choice([x for x in range(1, nsec)])
            if len(secs[i]["name"]) > 2:
                other = secs[i]["name"][1:]
                pos.setdefault(other, pos[secs[i]["name"]] + 1)
                k = rng.choice([x for x in range(1, nsec)])
                if k != i:
                    secs[k]["name"] = other
    # layout of the file
    blocks = [("ph", None)] + [("s", i) for i in range(nsec) if secs[i]["data"]] + [("sh", None)]
    if rng.random() < .6:
        # the usual order
        rest = blocks[1:]
        blocks = blocks[:1] + (rest if rng.random() < .5 else rng.sample(rest, len(rest)))
    else:
        rng.shuffle(blocks)
        g.use("program headers elsewhere")
    pos_of = {}
    here = ehsize
    for b in blocks:
        if b[0] == "ph":
            pos_of[b] = here
            here += phsize * nph
            continue
        if rng.random() < .5:
            here += rng.randrange(16)
        pos_of[b] = here
        here += shsize * nsec if b[0] == "sh" else len(secs[b[1]]["data"])
    out = bytearray(here)
    phoff = pos_of["ph", None] if nph else 0
    shoff = pos_of["sh", None] if nsec else 0
    ty, mach = rng.choice((1, 2, 3, 4)), rng.choice((3, 8, 20, 40, 43, 62))
    entry, flags, abi = rng.getrandbits(32), rng.getrandbits(32), rng.choice((0, 3, 9))
    w = "Q" if wide else "I"
    out[0:ehsize] = pack("4sBBBBB7x", b"\x7fELF", 2 if wide else 1, 2 if big else 1, 1, abi, 1) + pack(
        o + "HHI3" + w + "I6H", ty, mach, 1, entry, phoff, shoff, flags, ehsize, phsize if nph else 0, nph, shsize if nsec else 0,
        nsec, shstr)
    h = "header/"
    g.fs(h, **{"class": 2 if wide else 1, "endian": 2 if big else 1, "osabi_ident": abi, "abi_version": 1, "type": ty,
               "machine": mach, "version": 1, "entry": entry, "phoff": phoff, "shoff": shoff, "flags": flags, "ehsize": ehsize,
               "phnum": nph, "shnum": nsec, "shstrndx": shstr})
    g.disp(h + "entry", "0x%0*x" % (16 if wide else 8, entry))
    g.disp(h + "type", {1: "Relocatable file", 2: "Executable file", 3: "Shared object file", 4: "Core file"}[ty])
    g.disp(h + "machine", {3: "Intel 80386", 8: "MIPS I Architecture", 20: "PowerPC 32-bit", 40: "Advanced RISC Machines (ARM)",
                           43: "SPARC Version 9", 62: "Advanced Micro Devices x86-64"}[mach])
    g.count("prg_header", nph)
    segs = {1: "Loadable program segment", 2: "Dynamic linking information", 3: "Program interpreter",
            0x6474e551: "Indicates stack executability"}
    for i in range(nph):
        p = "prg_header[%d]/" % i
        v = dict(type=rng.choice(sorted(segs)), offset=rng.getrandbits(31), vaddr=rng.getrandbits(32), paddr=rng.getrandbits(32),
                 file_size=rng.getrandbits(31), mem_size=rng.getrandbits(31), align=rng.choice((1, 4096)))
        fl = rng.randrange(8)
        order = ("type flags offset vaddr paddr file_size mem_size align" if wide else
                 "type offset vaddr paddr file_size mem_size flags align").split()
        fmt = o + ("II6Q" if wide else "8I")
        at = phoff + i * phsize
        out[at:at + phsize] = pack(fmt, *[fl if k == "flags" else v[k] for k in order])
        g.fs(p, **v)
        g.fs(p + "flags/", pf_x=bool(fl & 1), pf_w=bool(fl & 2), pf_r=bool(fl & 4))
        g.disp(p + "type", segs[v["type"]])
        g.desc(p[:-1], "Program Header (%s)" % segs[v["type"]])
        g.at(p[:-1], at, phsize)
    g.count("section_header", nsec)
    for i, s in enumerate(secs):
        p = "section_header[%d]/" % i
        at = shoff + i * shsize
        off = pos_of.get(("s", i), rng.randrange(here))
        out[at:at + shsize] = pack(o + ("IIQQQQIIQQ" if wide else "10I"), pos[s["name"]], s["type"], s["flags"], s["addr"], off,
                                   s["size"], s["link"], s["info"], s["align"], s["ent"])
        g.fs(p, name=pos[s["name"]], type=s["type"], VMA=s["addr"], LMA=off, size=s["size"], link=s["link"], info=s["info"],
             addr_align=s["align"], entry_size=s["ent"])
        g.disp(p + "name", s["name"])
        f = s["flags"]
        for bit, name in enumerate("is_writable is_alloc is_exec - is_merged is_strings is_info_link preserve_link_order "
                                   "os_nonconforming is_group is_tls is_compressed".split()):
            if name != "-":
                g.f(p + "flags/" + name, bool(f >> bit & 1))
        g.fs(p + "flags/", os_specific=f >> 20 & 255, processor_specific=f >> 28 & 15)
        name = {0: "Inactive", 3: "String table section"}.get(s["type"]) or types[s["type"]]
        g.desc(p[:-1], "Section header (name: %s, type: %s)" % (s["name"], name))
        g.at(p[:-1], at, shsize)
        q = "section[%d]" % i
        if s["data"]:
            out[off:off + len(s["data"])] = s["data"]
            g.f(q, s["data"])
            g.at(q, off, len(s["data"]))
        else:
            g.absent(q)
    g.data = bytes(out)
    g.description = "ELF Unix/BSD program/library: %d bits" % (64 if wide else 32)
    return g


# ------------------------------------------------------------------ tcpdump

PORTS = {"tcp": {21: "ftp", 80: "HTTP", 25: "smtp"}, "udp": {53: "DNS", 123: "ntp"}}


@gen("misc")
def tcpdump(rng):
    g = G("tcpdump", "tcpdump")
    zone = rng.choice((0, 3600, -3600))
    snap = rng.choice((65535, 262144, 96))
    out = bytearray(pack("<IHHiiII", 0xa1b2c3d4, 2, 4, zone, 0, snap, 1))
    g.fs("", maj_ver=2, min_ver=4, this_zone=zone, sigfigs=0, snap_len=snap, link_type=1)
    g.disp("link_type", "ethernet")
    n = rng.randint(1, 12)
    sec, usec = rng.getrandbits(31), rng.randrange(1000000)
    first = None
    for i in range(n):
        p = "packet[%d]/" % i
        kind, body, text = packet(rng, g, p)
        full = len(body)
        now = sec * 1000000 + usec
        if first is None:
            first = now
        g.fs(p, caplen=full, ts_nanosec=usec, ts_epoch=datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=sec))
        g.at(p[:-1], len(out), 16 + full)
        wire = full + rng.choice((0, 0, 0, 100))
        g.f(p + "len", wire)
        out += pack("<IIII", sec, usec, full, wire) + body
        # since the first packet
        if text is not None:
            # the text of ARP uses the names of the hosts
            g.desc(p[:-1], "%s: %s" % (datetime.timedelta(microseconds=now - first), text))
        g.use(kind)
        if rng.random() < .5:
            usec += rng.randrange(1000000)
            sec, usec = sec + usec // 1000000, usec % 1000000
        else:
            sec = min(2 ** 31 - 1, sec + rng.choice((0, 1, 60, 100000)))
    g.count("packet", n)
    g.data = bytes(out)
    return g


def mac(g, p, rng):
    b = rbytes(rng, 6)
    g.f(p, ":".join("%02x" % c for c in b))
    g.fs(p + "/", organization=int.from_bytes(b[:3], "big"), nic=int.from_bytes(b[3:], "big"))
    return b


def ip4(g, p, rng):
    b = rbytes(rng, 4)
    g.f(p, ".".join(map(str, b)))
    return b


def packet(rng, g, p):
    r = rng.random()
    tail = rbytes(rng, rng.choice((0, 1, 10, 18)))
    proto, body, kind, text = 0x0806, b"", "arp", None
    if r < .15:
        op = rng.choice((1, 2, 3))
        a = p + "arp/"
        body = pack(">HHBBH", 1, 0x800, 6, 4, op)
        body += mac(g, a + "src_mac", rng) + ip4(g, a + "src_ip", rng) + mac(g, a + "dst_mac", rng) + ip4(g, a + "dst_ip", rng)
        g.fs(a, hw_type=1, proto_type=0x800, hw_size=6, proto_size=4, opcode=op)
        g.disp(a + "opcode", {1: "request", 2: "reply"}.get(op, str(op)))
        text = "ARP: 3" if op == 3 else None
    elif r < .22:
        kind, proto, text = "unknown protocol", rng.choice((0x9000, 0x8863)), "Packet"
        if not tail:
            tail = b"tail"
    elif r < .4:
        kind, proto = "ipv6", 0x86dd
        body, text, tail = ipv6(rng, g, p, tail)
    else:
        kind, proto = "ipv4", 0x800
        body, text, tail = ipv4(rng, g, p, tail, "ipv4")
    e = p + "ethernet/"
    head = mac(g, e + "dst", rng) + mac(g, e + "src", rng) + pack(">H", proto)
    g.f(e + "protocol", proto)
    if tail:
        g.f(p + "data", tail)
    else:
        g.absent(p + "data")
    return kind, head + body + tail, text


def transport(rng, g, p, kind):
    """(protocol number, header, description, data which must follow)"""
    q = p + kind + "/"
    src, dst = (rng.choice((rng.randrange(65536), rng.choice(sorted(PORTS[kind])))) for _ in "ab") if kind in PORTS else (0, 0)
    if kind == "tcp":
        options = b""
        k = 0
        for _ in range(rng.choice((0, 0, 1, 2, 3))):
            x = "%soption[%d]/" % (q, k)
            code = rng.choice((1, 2, 3, 4, 8, 5))
            v, w = rng.getrandbits(32), rng.getrandbits(32)
            add = {1: b"\1", 2: pack(">BBH", 2, 4, v & 0xFFFF), 3: pack("BBB", 3, 3, v & 15), 4: b"\4\2",
                   8: pack(">BBII", 8, 10, v, w), 5: pack(">BB8s", 5, 10, rbytes(rng, 8))}[code]
            if len(options) + len(add) > 36:
                break
            g.f(x + "code", code)
            if code == 2:
                g.f(x + "max_seg", v & 0xFFFF)
            elif code == 3:
                g.f(x + "win_scale", v & 15)
            elif code == 8:
                g.fs(x, ts_val=v, ts_ecr=w)
            elif code == 5:
                g.f(x + "data", add[2:])
            g.desc(x[:-1], "TCP option: " + {1: "NOP", 2: "Max segment size", 3: "Window scale", 4: "SACK permitted",
                                             8: "Timestamp", 5: "5"}[code])
            options += add
            k += 1
        if len(options) % 4:
            fill = 4 - len(options) % 4
            if rng.random() < .5:
                options += b"\1" * fill
                k += fill
            else:
                # end of the list, and padding
                g.use("end of the options")
                g.f("%soption[%d]/code" % (q, k), 0)
                options += bytes(fill)
                k = None
        if k is not None:
            g.count(q + "option", k)
        seq, ack, win, sum_, urg = rng.getrandbits(32), rng.getrandbits(32), rng.getrandbits(16), rng.getrandbits(16), rng.randrange(9)
        flags = rng.getrandbits(8)
        g.fs(q, src=src, dst=dst, seq_num=seq, ack_num=ack, hdrlen=20 + len(options), winsize=win, checksum=sum_, urgent=urg)
        for bit, name in enumerate("fin syn rst psh ack urg ecn-echo cgst".split()):
            g.f(q + name, bool(flags >> bit & 1))
        g.disp(q + "checksum", "0x%04x" % sum_)
        names = PORTS["tcp"]
        a = names.get(src, str(src)) if src < 32768 else None
        b = names.get(dst, str(dst)) if dst < 32768 else None
        text = "TCP" + (" (%s->%s)" % (a or "", b or "") if a or b else "")
        on = [t for bit, t in ((2, "SYN"), (16, "ACK"), (1, "FIN"), (4, "RST")) if flags & bit]
        text += " [%s]" % ",".join(on) if on else ""
        head = pack(">HHIIBBHHH", src, dst, seq, ack, (20 + len(options)) << 2, flags, win, sum_, urg) + options
        return 6, head, text, b""
    if kind == "udp":
        n, sum_ = rng.randrange(65536), rng.getrandbits(16)
        g.fs(q, src=src, dst=dst, length=n, checksum=sum_)
        names = {53: "DNS", 123: "ntp", 12: "daytime", 22: "ssh", 67: "dhcp/bootp", 80: "http", 110: "pop3",
                 137: "netbios name service", 138: "netbios datagram service"}
        return 17, pack(">HHHH", src, dst, n, sum_), "UDP (%s->%s)" % (names.get(src, src), names.get(dst, dst)), b""
    sum_, ident, seq = rng.getrandbits(16), rng.getrandbits(16), rng.getrandbits(16)
    if kind == "icmp":
        ty = rng.choice((0, 8, 11))
        if ty == 11:
            g.fs(q, type=11, code=0, checksum=sum_)
            return 1, pack(">BBH", 11, 0, sum_), "ICMP (11)", b"rest"
        g.fs(q, type=ty, code=0, checksum=sum_, id=ident, seq_num=seq)
        return 1, pack(">BBHHH", ty, 0, sum_, ident, seq), "%s (num=%d)" % ({0: "Pong", 8: "Ping"}[ty], seq), b""
    ty = rng.choice((128, 129, 135))
    g.fs(q, type=ty, code=0, checksum=sum_)
    if ty == 135:
        return 58, pack(">BBH", ty, 0, sum_), "ICMPv6 (135)", b"rest"
    g.fs(q, id=ident, sequence=seq)
    return 58, pack(">BBHHH", ty, 0, sum_, ident, seq), "%s (num=%d)" % ({128: "Echo request", 129: "Echo reply"}[ty], seq), b""


def ipv4(rng, g, p, tail, name, nested=False):
    q = p + name + "/"
    r = rng.random()
    text = "Packet"
    body = b""
    off = 0
    if r < .1:
        proto = 89
        tail = tail or b"ospf"
    elif r < .2:
        # not the first fragment: its data do not start with a header
        proto = rng.choice((6, 17, 1))
        off = rng.choice((1, 255, 256, 8191))
        tail = rbytes(rng, rng.randint(1, 60))
        g.use("fragment")
        for k in ("tcp", "udp", "icmp"):
            if not nested or k != "icmp":
                g.absent(p + k)
    elif r < .3 and not nested:
        g.use("ICMP error")
        proto = 1
        code, sum_, mtu = rng.randrange(16), rng.getrandbits(16), rng.getrandbits(16)
        g.fs(p + "icmp/", type=3, code=code, checksum=sum_, hop_mtu=mtu)
        body = pack(">BBHHH", 3, code, sum_, 0, mtu)
        more, _, tail = ipv4(rng, g, p, tail, "rejected_ipv4", True)
        body += more
        text = "ICMP (Reject)"
    else:
        k = rng.choice(("tcp", "udp") if nested else ("tcp", "udp", "icmp"))
        proto, body, text, rest = transport(rng, g, p, k)
        tail = rest + tail
    options = b"\1" * 4 * rng.choice((0, 0, 0, 1, 3))
    if options:
        g.f(q + "options", options)
        g.use("IP options")
    length, ident, sum_ = rng.getrandbits(16), rng.getrandbits(16), rng.getrandbits(16)
    df, more_frag, ttl = rng.random() < .5, rng.random() < .2, rng.randrange(256)
    prec, low, thr, rel = rng.randrange(8), rng.random() < .5, rng.random() < .5, rng.random() < .5
    hs = 5 + len(options) // 4
    head = pack(">BBHHHBBH", 0x40 | hs, prec << 5 | low << 4 | thr << 3 | rel << 2, length, ident, df << 14 | more_frag << 13 | off,
                ttl, proto, sum_) + ip4(g, q + "src", rng) + ip4(g, q + "dst", rng) + options
    g.fs(q, version=4, hdr_size=hs, precedence=prec, low_delay=low, high_throu=thr, high_rel=rel, length=length, id=ident, df=df,
         more_frag=more_frag, ttl=ttl, protocol=proto, checksum=sum_)
    return head + body, text, tail


def ipv6(rng, g, p, tail):
    q = p + "ipv6/"
    if rng.random() < .2:
        proto, body, tail = 59, b"", tail or b"none"
    else:
        proto, body, text, rest = transport(rng, g, p, rng.choice(("tcp", "udp", "icmpv6")))
        tail = rest + tail
    cls, flow, length, hop = rng.randrange(256), rng.getrandbits(20), rng.getrandbits(16), rng.randrange(256)
    src, dst = rbytes(rng, 16), rbytes(rng, 16)
    g.fs(q, version=6, traffic=cls, flow=flow, length=length, protocol=proto, hop_limit=hop)
    for name, a in (("src", src), ("dst", dst)):
        g.f(q + name, ":".join(a[i:i + 2].hex() for i in range(0, 16, 2)))
    if proto == 59 or proto == 58:
        text = "Packet"
    return pack(">IHBB", 6 << 28 | cls << 20 | flow, length, proto, hop) + src + dst + body, text, tail


# --------------------------------------------------------------- Java class

class Pool:
    """constant pool of a class"""

    def __init__(self, rng, g):
        self.rng, self.g = rng, g
        self.out = b""
        self.n = 1
        self.known = {}
        self.text = {}      # index -> human text

    def put(self, tag, body, desc, **facts):
        key = (tag, body)
        if key in self.known:
            return self.known[key]
        i = self.n
        p = "constant_pool/constant_pool[%d]/" % i
        self.g.at(p[:-1], 10 + len(self.out), 1 + len(body))
        self.out += bytes([tag]) + body
        self.known[key] = i
        self.n += 2 if tag in (5, 6) else 1
        self.g.f(p + "tag", tag)
        self.g.fs(p, **facts)
        kind = {1: "Utf8", 3: "Integer", 4: "Float", 5: "Long", 6: "Double", 7: "Class", 8: "String", 9: "Fieldref",
                10: "Methodref", 11: "InterfaceMethodref", 12: "NameAndType"}[tag]
        if desc is not None and desc.isascii():
            self.g.desc(p[:-1], "%s(%s)" % (kind, desc))
        self.text[i] = desc
        if tag in (5, 6):
            self.g.absent("constant_pool/constant_pool[%d]" % (i + 1))
        return i

    def utf8(self, s):
        raw = s.encode("utf-8")
        return self.put(1, pack(">H", len(raw)) + raw, '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"'), bytes=s)

    def cls(self, name):
        i = self.utf8(name)
        return self.put(7, pack(">H", i), name.replace("/", "."), name_index=i)

    def string(self, s):
        i = self.utf8(s)
        return self.put(8, pack(">H", i), self.text[i], string_index=i)

    def number(self):
        r = self.rng.randrange(4)
        if r == 0:
            v = self.rng.getrandbits(32) - (1 << 31)
            return self.put(3, pack(">i", v), str(v), bytes=v)
        if r == 1:
            v = self.rng.randrange(-1 << 20, 1 << 20) / 32
            return self.put(4, pack(">f", v), None, bytes=v)
        if r == 2:
            v = self.rng.getrandbits(64) - (1 << 63)
            return self.put(5, pack(">q", v), str(v), bytes=v)
        v = self.rng.uniform(-1e9, 1e9)
        return self.put(6, pack(">d", v), None, bytes=v)

    def nat(self, name, descr, text):
        a, b = self.utf8(name), self.utf8(descr)
        return self.put(12, pack(">HH", a, b), text(name), name_index=a, descriptor_index=b)

    def ref(self, tag, cls, name, descr, text):
        a, b = self.cls(cls), self.nat(name, descr, text)
        return self.put(tag, pack(">HH", a, b), text(cls.replace("/", ".") + "." + name), class_index=a, name_and_type_index=b)


def java_type(rng, void=False):
    """(descriptor, text)"""
    dim = rng.choice((0, 0, 0, 1, 2))
    types = [("B", "byte"), ("C", "char"), ("D", "double"), ("F", "float"), ("I", "int"), ("J", "long"), ("S", "short"),
             ("Z", "boolean"), ("Ljava/lang/String;", "java.lang.String"), ("LFoo;", "Foo")]
    if void and rng.random() < .4:
        return "V", "void"
    d, t = rng.choice(types)
    return "[" * dim + d, t + "[]" * dim


def java_method(rng):
    """(descriptor, name -> text)"""
    args = [java_type(rng) for _ in range(rng.choice((0, 0, 1, 2, 4)))]
    ret = java_type(rng, True)
    return "(%s)%s" % ("".join(a for a, _ in args), ret[0]), \
        lambda name: "%s %s(%s)" % (ret[1], name, ", ".join(t for _, t in args))


JAVA_NOARGS = {0x00: "nop", 0x01: "aconst_null", 0x02: "iconst_m1", 0x03: "iconst_0", 0x0a: "lconst_1", 0x0d: "fconst_2",
               0x0f: "dconst_1", 0x1a: "iload_0", 0x21: "lload_3", 0x25: "fload_3", 0x2a: "aload_0", 0x2e: "iaload",
               0x35: "saload", 0x3b: "istore_0", 0x4e: "astore_3", 0x57: "pop", 0x59: "dup", 0x5f: "swap", 0x60: "iadd",
               0x73: "drem", 0x7e: "iand", 0x83: "lxor", 0x85: "i2l", 0x93: "i2s", 0x94: "lcmp", 0xac: "ireturn", 0xb1: "return",
               0xbe: "arraylength", 0xbf: "athrow", 0xc2: "monitorenter", 0xc3: "monitorexit"}
JAVA_INDEX = {0x15: "iload", 0x19: "aload", 0x36: "istore", 0x3a: "astore", 0xa9: "ret"}
JAVA_JUMP = {0x99: "ifeq", 0xa7: "goto", 0xa5: "if_acmpeq", 0xc6: "ifnull", 0xa8: "jsr"}
JAVA_REF = {0xb2: ("getstatic", 9), 0xb5: ("putfield", 9), 0xb6: ("invokevirtual", 10), 0xb8: ("invokestatic", 10)}


def java_code(rng, g, pool, p):
    out = b""
    for k in range(rng.choice((1, 3, 10, 40))):
        q = "%sbytecode[%d]/" % (p, k)
        r = rng.random()
        at = len(out)
        val = None
        if r < .3:
            op = rng.choice(sorted(JAVA_NOARGS))
            code, text = bytes([op]), JAVA_NOARGS[op]
            val = text
        elif r < .4:
            op, i = rng.choice(sorted(JAVA_INDEX)), rng.randrange(256)
            code, text = bytes([op, i]), "%s(%d)" % (JAVA_INDEX[op], i)
        elif r < .5:
            op, i = rng.choice(sorted(JAVA_JUMP)), rng.randint(-300, 300)
            code, text = pack(">Bh", op, i), "%s(%d)" % (JAVA_JUMP[op], i)
        elif r < .55:
            i = rng.randint(-128, 127)
            code, text = pack(">Bb", 0x10, i), "bipush(%d)" % i
        elif r < .6:
            i = rng.randint(-32768, 32767)
            code, text = pack(">Bh", 0x11, i), "sipush(%d)" % i
        elif r < .65:
            i, v = rng.randrange(256), rng.randint(-128, 127)
            code, text = pack(">BBb", 0x84, i, v), "iinc(%d,%d)" % (i, v)
        elif r < .7:
            g.use("wide")
            i, v = rng.randrange(65536), rng.randint(-32768, 32767)
            if rng.random() < .5:
                code, text = pack(">BBHh", 0xc4, 0x84, i, v), "wide(%d,%d)" % (i, v)
            else:
                code, text = pack(">BBH", 0xc4, 0x15, i), "wide(%d)" % i
        elif r < .8:
            op = rng.choice(sorted(JAVA_REF))
            name, tag = JAVA_REF[op]
            i = java_ref(rng, pool, tag)
            code, text, val = pack(">BH", op, i), "%s(%s)" % (name, pool.text[i]), "%s(%d)" % (name, i)
        elif r < .83:
            i = pool.string(phrase(rng))
            if i > 255:
                code, text, val = pack(">BH", 0x13, i), "ldc_w(%s)" % pool.text[i], "ldc_w(%d)" % i
            else:
                code, text, val = pack(">BB", 0x12, i), "ldc(%s)" % pool.text[i], "ldc(%d)" % i
        elif r < .86:
            i = pool.cls("java/util/" + word(rng))
            code, text = pack(">BH", 0xbb, i), "new(%s)" % pool.text[i]
        elif r < .9:
            t = rng.randint(4, 11)
            code, text = bytes([0xbc, t]), "newarray(%s)" % {4: "boolean", 5: "char", 6: "float", 7: "double", 8: "byte", 9: "short",
                                                            10: "int", 11: "long"}[t]
        elif r < .92:
            i = pool.cls("[[Ljava/lang/Object;")
            code, text = pack(">BHB", 0xc5, i, 2), "multianewarray(%d,2)" % i
        elif r < .94:
            i = java_ref(rng, pool, 11)
            code, text = pack(">BHBB", 0xb9, i, 3, 0), "invokeinterface(%d,3,0)" % i
        elif r < .96:
            i = rng.randint(-100000, 100000)
            code, text = pack(">Bi", 0xc8, i), "goto_w(%d)" % i
        else:
            g.use("switch")
            pad = bytes(-(at + 1) % 4)
            d, n = rng.randint(-999, 999), rng.choice((0, 1, 5))
            if pad:
                g.f(q + "padding", 0)
            if rng.random() < .5:
                low = rng.randint(-5, 5)
                offs = [rng.randint(-999, 999) for _ in range(n + 1)]
                code = b"\xaa" + pad + pack(">iii%di" % (n + 1), d, low, low + n, *offs)
                text = "tableswitch(%d,%d,%d,...)" % (d, low, low + n)
            else:
                offs = [rng.randint(-999, 999) for _ in range(n)]
                code = b"\xab" + pad + pack(">ii", d, n) + b"".join(pack(">ii", j * 10, o) for j, o in enumerate(offs))
                text = "lookupswitch(%d,%d,...)" % (d, n)
                for j in range(n):
                    g.f("%smatch[%d]" % (q, j), j * 10)
            for j, o in enumerate(offs):
                g.f("%soffset[%d]" % (q, j), o)
        out += code
        g.disp(q[:-1], text)
        if val:
            g.f(q[:-1], val)
        g.facts.append(("size", q[:-1], len(code) * 8))
    return out


def java_ref(rng, pool, tag):
    cls = "java/%s/%s" % (word(rng, 1, 4).lower(), word(rng, 1, 5))
    if tag == 9:
        d, t = java_type(rng)
        return pool.ref(9, cls, word(rng), d, lambda name: t + " " + name)
    d, fn = java_method(rng)
    return pool.ref(tag, cls, word(rng), d, fn)


def bits(g, p, flags, table):
    for mask, name in table.items():
        g.f(p + name, bool(flags & mask))


def java_attributes(rng, g, pool, p, makers):
    """count and attributes; p is the path of the owner with a slash"""
    n = len(makers)
    out = pack(">H", n)
    g.f(p + "attributes_count", n)
    for i, fn in enumerate(makers):
        q = "%sattributes/attributes[%d]/" % (p, i)
        name, body = fn(q)
        out += pack(">HI", pool.utf8(name), len(body)) + body
        g.disp(q + "attribute_name_index", '"%s"' % name)
        g.f(q + "attribute_length", len(body))
    return out


@gen("misc")
def java_class(rng):
    g = G("java_class", "java_class")
    pool = Pool(rng, g)
    names = {46: "JDK 1.2", 49: "JDK 1.5", 52: "JDK 1.8", 55: "JDK 11", 58: "JDK 14"}
    major = rng.choice(sorted(names))
    this = "org/example/" + word(rng)
    flags = rng.choice((0x21, 0x31, 0x601, 0x4031, 0x1020, 0x2600))
    if rng.random() < .5:
        for _ in range(rng.randint(1, 8)):
            pool.number()
    if rng.random() < .3:
        pool.utf8("\u20ac \\ \"quote\" " + word(rng))
    a, b = pool.cls(this), pool.cls("java/lang/Object")
    if rng.random() < .1:
        this = "java/lang/Object"
        a, b = pool.cls(this), 0
        g.use("no super class")
    g.disp("super_class", "java.lang.Object" if b else "ZERO")
    body = pack(">HHH", flags, a, b)
    g.fs("", this_class=a, super_class=b)
    bits(g, "", flags, {0x4000: "enum", 0x2000: "annotation", 0x1000: "synthetic", 0x400: "abstract", 0x200: "interface",
                        0x20: "super", 0x10: "final", 1: "public"})
    g.disp("this_class", this.replace("/", "."))
    n = rng.choice((0, 0, 1, 3))
    body += pack(">H", n)
    g.f("interfaces_count", n)
    for i in range(n):
        c = "java/io/" + word(rng)
        body += pack(">H", pool.cls(c))
        g.disp("interfaces/interfaces[%d]" % i, c.replace("/", "."))

    def unknown(q):
        data = rbytes(rng, rng.randint(1, 20))
        g.f(q + "info", data)
        return "X" + word(rng), data

    def empty(q):
        return rng.choice(("Synthetic", "Deprecated")), b""

    def constant(q):
        i = rng.choice((pool.number, lambda: pool.string(phrase(rng))))()
        g.f(q + "constantvalue_index", i)
        return "ConstantValue", pack(">H", i)

    def exceptions(q):
        cs = ["java/lang/%sException" % word(rng) for _ in range(rng.randint(1, 3))]
        for i, c in enumerate(cs):
            g.disp("%sexception_index_table/exception_index_table[%d]" % (q, i), c.replace("/", "."))
        return "Exceptions", pack(">H", len(cs)) + b"".join(pack(">H", pool.cls(c)) for c in cs)

    def lines(q):
        rows = [(rng.randrange(99), rng.randrange(9999)) for _ in range(rng.choice((0, 1, 5)))]
        for i, row in enumerate(rows):
            g.disp("%sline_number_table/line_number_table[%d]" % (q, i), "%d @ line %d" % row)
        return "LineNumberTable", pack(">H", len(rows)) + b"".join(pack(">HH", *row) for row in rows)

    def variables(q):
        out = b""
        n = rng.choice((0, 1, 4))
        for i in range(n):
            e = "%slocal_variable_table/local_variable_table[%d]/" % (q, i)
            name, (d, t) = word(rng), java_type(rng)
            s, ln, x = rng.randrange(99), rng.randrange(99), rng.randrange(9)
            g.fs(e, start_pc=s, length=ln, index=x)
            g.disp(e + "name_index", '"%s"' % name)
            g.disp(e + "descriptor_index", t)
            out += pack(">5H", s, ln, pool.utf8(name), pool.utf8(d), x)
        return "LocalVariableTable", pack(">H", n) + out

    def code(q):
        raw = java_code(rng, g, pool, q + "code/")
        st, lo = rng.randrange(99), rng.randrange(99)
        g.fs(q, max_stack=st, max_locals=lo, code_length=len(raw))
        out = pack(">HHI", st, lo, len(raw)) + raw
        n = rng.choice((0, 0, 1, 3))
        out += pack(">H", n)
        g.f(q + "exception_table_length", n)
        for i in range(n):
            e = "%sexception_table/exception_table[%d]/" % (q, i)
            v = [rng.randrange(len(raw) + 1) for _ in "abc"]
            g.fs(e, start_pc=v[0], end_pc=v[1], handler_pc=v[2])
            if rng.random() < .5:
                c = 0
                g.use("finally")
                g.disp(e + "catch_type", "ZERO")
            else:
                c = pool.cls("java/lang/" + word(rng))
                g.disp(e + "catch_type", pool.text[c])
            g.f(e + "catch_type", c)
            out += pack(">4H", *v, c)
        return "Code", out + java_attributes(rng, g, pool, q, rng.sample([lines, variables, unknown], rng.randint(0, 3)))
    n = rng.choice((0, 1, 2, 6))
    body += pack(">H", n)
    g.f("fields_count", n)
    ft = {1: "public", 2: "private", 4: "protected", 8: "static", 0x10: "final", 0x40: "volatile", 0x80: "transient",
          0x1000: "synthetic", 0x4000: "enum"}
    for i in range(n):
        q = "fields/fields[%d]/" % i
        name, (d, t) = word(rng), java_type(rng)
        fl = sum(m for m in ft if rng.random() < .3)
        bits(g, q, fl, ft)
        g.disp(q + "name_index", '"%s"' % name)
        g.disp(q + "descriptor_index", t)
        g.desc(q[:-1], " ".join([v for m, v in ft.items() if fl & m] + [t, name]))
        body += pack(">HHH", fl, pool.utf8(name), pool.utf8(d))
        body += java_attributes(rng, g, pool, q, rng.sample([unknown, empty, constant], rng.choice((0, 0, 1, 2))))
    n = rng.choice((0, 1, 1, 2, 4))
    body += pack(">H", n)
    g.f("methods_count", n)
    mt = {1: "public", 2: "private", 4: "protected", 8: "static", 0x10: "final", 0x20: "synchronized", 0x40: "bridge",
          0x80: "varargs", 0x100: "native", 0x400: "abstract", 0x800: "strict", 0x1000: "synthetic"}
    for i in range(n):
        q = "methods/methods[%d]/" % i
        name, (d, fn) = rng.choice(("<init>", word(rng))), java_method(rng)
        fl = sum(m for m in mt if rng.random() < .3)
        bits(g, q, fl, mt)
        g.disp(q + "name_index", '"%s"' % name)
        g.disp(q + "descriptor_index", fn(""))
        g.desc(q[:-1], " ".join([v for m, v in mt.items() if fl & m] + [fn(name)]))
        body += pack(">HHH", fl, pool.utf8(name), pool.utf8(d))
        body += java_attributes(rng, g, pool, q, rng.sample([code, exceptions, unknown, empty], rng.choice((0, 1, 2, 3))))

    def source(q):
        name = word(rng) + ".java"
        g.disp(q + "sourcefile_index", '"%s"' % name)
        return "SourceFile", pack(">H", pool.utf8(name))

    def inner(q):
        out = b""
        n = rng.randint(1, 3)
        table = {1: "public", 2: "private", 4: "protected", 8: "static", 0x10: "final", 0x20: "super", 0x200: "interface",
                 0x400: "abstract", 0x1000: "synthetic", 0x2000: "annotation", 0x4000: "enum"}
        for i in range(n):
            e = "%sclasses/classes[%d]/" % (q, i)
            name = word(rng)
            fl = sum(m for m in table if rng.random() < .3)
            bits(g, e, fl, table)
            anonymous = rng.random() < .3
            ci = pool.cls("%s$%s" % (this, name))
            oi, ni = (0, 0) if anonymous else (pool.cls(this), pool.utf8(name))
            g.fs(e, inner_class_info_index=ci, outer_class_info_index=oi, inner_name_index=ni)
            g.disp(e + "outer_class_info_index", "ZERO" if anonymous else this.replace("/", "."))
            g.desc(e[:-1], " ".join([v for m, v in table.items() if fl & m] + ([] if fl & 0x200 else ["class"]) +
                                    [pool.text[ci]]))
            out += pack(">HHHH", ci, oi, ni, fl)
        return "InnerClasses", pack(">H", n) + out
    body += java_attributes(rng, g, pool, "", rng.sample([source, inner, unknown, empty], rng.randint(0, 4)))
    g.f("constant_pool_count", pool.n)
    g.disp("magic", "0xcafebabe")
    g.fs("", minor_version=0, major_version=major)
    g.data = pack(">IHHH", 0xCAFEBABE, 0, major, pool.n) + pool.out + body
    g.description = "Compiled Java class, " + names[major]
    g.use(names[major])
    return g


# ----------------------------------------------------------- compiled Python

PY_VERSIONS = {62211: (2, 7), 3310: (3, 4), 3394: (3, 7), 3413: (3, 8), 3439: (3, 10), 3495: (3, 11), 3531: (3, 12),
               3571: (3, 13), 3627: (3, 14)}


class Marshal:
    """marshal writer, with the facts"""

    def __init__(self, rng, g, version):
        self.rng, self.g, self.version = rng, g, version
        self.refs = []          # (value, code)
        self.strings = []

    def flag(self, code, value=None, ok=True):
        if self.version >= (3, 4) and self.rng.random() < .3:
            self.refs.append(value if ok else None)
            return bytes([ord(code) | 0x80])
        return code.encode()

    def again(self, p):
        """a reference to an object written before"""
        known = [i for i, v in enumerate(self.refs) if v is not None]
        if not known or self.rng.random() < .8:
            return None
        i = self.rng.choice(known)
        self.g.f(p + "/bytecode", "r")
        self.g.f(p, self.refs[i])
        self.g.use("references")
        return b"r" + pack("<I", i)

    def bytes(self, p, b):
        self.g.f(p + "/bytecode", "s")
        self.g.f(p, b)
        return self.flag("s", b) + pack("<I", len(b)) + b

    def name(self, p, s):
        """identifier or other text"""
        rng, g = self.rng, self.g
        if self.version < (3,):
            b = s.encode("utf-8")
            if b in self.strings and rng.random() < .7:
                g.use("interned strings")
                i = self.strings.index(b)
                g.f(p, b)
                return b"R" + pack("<I", i)
            g.f(p, b)
            code = "s"
            if rng.random() < .5:
                self.strings.append(b)
                code = "t"
            return code.encode() + pack("<I", len(b)) + b
        g.f(p, s)
        if s.isascii() and rng.random() < .8 and self.version >= (3, 4):
            if rng.random() < .7 and len(s) < 256:
                return self.flag(rng.choice("zZ"), s) + bytes([len(s)]) + s.encode()
            return self.flag(rng.choice("aA"), s) + pack("<I", len(s)) + s.encode()
        b = s.encode("utf-8")
        return self.flag(rng.choice("ut"), s) + pack("<I", len(b)) + b

    def tuple(self, p, items, write):
        """(bytes); `write` is called with the path of each item"""
        small = self.version >= (3, 4) and len(items) < 256 and self.rng.random() < .8
        self.g.f(p + "/count", len(items))
        self.g.desc(p, "Tuple: %d items" % len(items))
        out = self.flag(")" if small else "(", None, False) + (bytes([len(items)]) if small else pack("<I", len(items)))
        for i, x in enumerate(items):
            out += write("%s/item[%d]" % (p, i), x)
        return out

    def constant(self, p, depth=2):
        rng, g = self.rng, self.g
        out = self.again(p)
        if out:
            return out
        r = rng.randrange(14 if depth else 9)
        if r == 0:
            v = rng.choice((None, True, False, ...))
            g.f(p, v)
            return {None: b"N", True: b"T", False: b"F", ...: b"."}[v]
        if r == 1:
            v = rng.getrandbits(32) - (1 << 31)
            g.f(p, v)
            return self.flag("i", v) + pack("<i", v)
        if r == 2:
            v = rng.getrandbits(rng.choice((15, 16, 30, 31, 60, 64, 100, 300))) * rng.choice((1, -1))
            g.f(p, v)
            digits = []
            n = abs(v)
            while n:
                digits.append(n & 0x7FFF)
                n >>= 15
            return self.flag("l", v) + pack("<i%dH" % len(digits), len(digits) * (-1 if v < 0 else 1), *digits)
        if r == 3:
            v = rng.choice((0.0, -1.5, 1e300, rng.uniform(-1, 1)))
            g.f(p, v)
            if rng.random() < .2:
                t = repr(v).encode()
                return self.flag("f", v) + bytes([len(t)]) + t
            return self.flag("g", v) + pack("<d", v)
        if r == 4:
            v = complex(rng.uniform(-1, 1), rng.randrange(100))
            g.f(p, v)
            return self.flag("y", v) + pack("<dd", v.real, v.imag)
        if r == 5:
            return self.bytes(p, rbytes(rng, rng.choice((0, 1, 10, 300))))
        if r in (6, 7):
            return self.name(p, rng.choice(("", word(rng), phrase(rng), word(rng) * 30, "\u20ac\u00e9" + word(rng))))
        if r == 8:
            v = rng.choice((0, 1, -1))
            g.f(p, v)
            return self.flag("i", v) + pack("<i", v)
        if r == 9:
            n = rng.choice((0, 1, 3))
            out = self.flag(">", None, False) + pack("<I", n)
            g.desc(p, "Frozen set: %d items" % n)
            vals = rng.sample(range(1000), n)
            for i, v in enumerate(vals):
                g.f("%s/item[%d]" % (p, i), v)
                out += b"i" + pack("<i", v)
            g.f(p, frozenset(vals))
            return out
        if r == 10:
            g.use("dictionary")
            keys = rng.sample(range(1000), rng.choice((0, 1, 3)))
            out = self.flag("{", None, False)
            for i, k in enumerate(keys):
                out += b"i" + pack("<i", k) + self.constant("%s/value[%d]" % (p, i), depth - 1)
                g.f("%s/key[%d]" % (p, i), k)
            g.desc(p, "Dict: %d keys" % len(keys))
            return out + b"0"
        if r == 11 and self.version >= (3, 14):
            g.use("slice")
            v = [rng.choice((None, rng.randrange(9))) for _ in "abc"]
            g.f(p, slice(*v))
            return self.flag(":", None, False) + b"".join(b"N" if x is None else b"i" + pack("<i", x) for x in v)
        return self.tuple(p, [0] * rng.choice((0, 1, 2, 5)), lambda q, _: self.constant(q, depth - 1))

    def code(self, p, depth):
        rng, g, v = self.rng, self.g, self.version
        g.f(p + "/bytecode", "c")
        out = self.flag("c", None, False)
        fields = ["arg_count"]
        if v >= (3, 8):
            fields.append("posonlyargcount")
        if v >= (3,):
            fields.append("kwonlyargcount")
        if v < (3, 11):
            fields.append("nb_locals")
        for name in fields + ["stack_size", "flags"]:
            n = rng.getrandbits(rng.choice((3, 8, 20)))
            out += pack("<I", n)
            g.f("%s/%s" % (p, name), n)
        out += self.bytes(p + "/compiled_code", rbytes(rng, rng.choice((2, 10, 100))))
        n = rng.choice((0, 1, 3, 8))

        def const(q, _):
            if depth and rng.random() < .15:
                g.use("nested code")
                return self.code(q, depth - 1)
            return self.constant(q)

        def names(q):
            return self.tuple(q, [word(rng) for _ in range(rng.choice((0, 1, 2, 6)))], self.name)
        out += self.tuple(p + "/consts", [0] * n, const)
        out += names(p + "/names")
        if v >= (3, 11):
            out += names(p + "/co_localsplusnames")
            out += self.bytes(p + "/co_localspluskinds", rbytes(rng, 3))
        else:
            out += names(p + "/varnames") + names(p + "/freevars") + names(p + "/cellvars")
        out += self.name(p + "/filename", "/usr/lib/%s.py" % word(rng))
        out += self.name(p + "/name", word(rng))
        if v >= (3, 11):
            out += self.name(p + "/qualname", word(rng) + "." + word(rng))
        line = rng.randrange(1, 99999)
        out += pack("<I", line)
        g.f(p + "/firstlineno", line)
        if v >= (3, 10):
            out += self.bytes(p + "/linetable", rbytes(rng, rng.choice((0, 4))))
            if v >= (3, 11):
                out += self.bytes(p + "/exceptiontable", rbytes(rng, rng.choice((0, 4))))
        else:
            tab = [(rng.randrange(256), rng.randrange(128)) for _ in range(rng.choice((0, 1, 5)))]
            for i, (a, b) in enumerate(tab):
                g.f("%s/lnotab/bytecode_offset_delta[%d]" % (p, i), a)
                g.f("%s/lnotab/line_number_delta[%d]" % (p, i), b)
                line += b
                g.desc("%s/lnotab/line_number_delta[%d]" % (p, i), "Line Number %d" % line)
            out += b"s" + pack("<I", 2 * len(tab)) + bytes(x for row in tab for x in row)
        return out


@gen("misc")
def python_pyc(rng):
    g = G("python_pyc", "python")
    magic = rng.choice(sorted(PY_VERSIONS))
    v = PY_VERSIONS[magic]
    head = pack("<H2s", magic, b"\r\n")
    g.fs("", magic_number=magic, magic_string="\r\n")
    hashed = False
    if v >= (3, 7):
        hashed = rng.random() < .3
        checked = hashed and rng.random() < .5
        head += pack("<I", hashed | checked << 1)
        g.fs("", use_hash=hashed, checked=checked)
    if hashed:
        h = rng.getrandbits(64)
        head += pack("<Q", h)
        g.f("hash", h)
        g.use("hash-based")
    else:
        t, size = rng.getrandbits(31), rng.getrandbits(20)
        head += pack("<I", t)
        g.f("timestamp", datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t))
        if v >= (3, 3):
            head += pack("<I", size)
            g.f("filesize", size)
    g.use("Python %d.%d" % v)
    m = Marshal(rng, g, v)
    g.data = head + m.code("content", 2)
    return g


# ------------------------------------------------------------------- Mach-O

MACH_FLAGS = ("noundefs incrlink dyldlink bindatload prebound split_segs lazy_init twolevel force_flat nomultidefs "
              "nofixprebinding prebindable allmodsbound subsections_via_symbols canonical weak_defines binds_to_weak "
              "allow_stack_execution root_safe setuid_safe no_reexported_dylibs pie dead_strippable_dylib has_tlv_descriptors "
              "no_heap_execution").split()
MACH_CPU = {7: "i386", 18: "PowerPC", 12: "ARM", 0x01000007: "x86_64", 0x0100000c: "ARM64"}


def macho_image(rng, g, p=""):
    """p: path of the image with a slash"""
    big, wide = rng.random() < .4, rng.random() < .5
    o, w = ">" if big else "<", "Q" if wide else "I"
    g.use("%s endian, %d bits" % ("big" if big else "little", 64 if wide else 32))
    cmds = b""
    n = rng.randint(1, 10)
    for i in range(n):
        c = "%sload_command[%d]/" % (p, i)
        d = c + "data/"
        kind = rng.choice(("segment", "segment", "symtab", "dylib", "dylinker", "uuid", "version", "raw", "dysymtab", "dyld"))
        if kind == "segment":
            cmd, text = (0x19, "64-bit segment") if wide else (1, "Segment")
            name = rng.choice(("__TEXT", "__DATA", "__LINKEDIT", "S" * 16))
            v = dict(vmaddr=rng.getrandbits(32), vmsize=rng.getrandbits(31), fileoff=rng.getrandbits(20), filesize=rng.getrandbits(20))
            u = dict(maxprot=rng.randrange(8), initprot=rng.randrange(8), nsects=rng.choice((0, 1, 3)), flags=rng.randrange(9))
            body = pack("16s", name.encode()) + pack(o + "4%s4I" % w, *v.values(), *u.values())
            g.fs(d, segname=name, **v, **u)
            g.desc(d[:-1], "Load segment " + name)
            g.f(d[:-1], name)
            for k in range(u["nsects"]):
                s = "%ssection[%d]/" % (d, k)
                sect = "__" + word(rng, 1, 14)
                a = dict(addr=rng.getrandbits(32), size=rng.getrandbits(31))
                b = dict(offset=rng.getrandbits(31), align=rng.randrange(16), reloff=rng.getrandbits(20), nreloc=rng.randrange(99),
                         flags=rng.getrandbits(32), reserved1=rng.randrange(9), reserved2=rng.randrange(9))
                body += pack("16s16s", sect.encode(), name.encode()) + pack(o + "2%s7I" % w, *a.values(), *b.values())
                body += b"\0\0\0\0" if wide else b""
                g.fs(s, sectname=sect, segname=name, **a, **b)
                g.desc(s[:-1], "Section %s,%s" % (name, sect))
                g.f(s[:-1], "%s,%s" % (name, sect))
        elif kind in ("symtab", "dysymtab", "dyld"):
            cmd, text, names = {
                "symtab": (2, "Symbol table", "symoff nsyms stroff strsize"),
                "dysymtab": (0xb, "Dynamic symbol table", "ilocalsym nlocalsym iextdefsym nextdefsym iundefsym nundefsym tocoff "
                             "ntoc modtaboff nmodtab extrefsymoff nextrefsyms indirectsymoff nindirectsyms extreloff nextrel "
                             "locreloff nlocrel"),
                "dyld": (0x80000022, "Compressed dyld info", "rebase_off rebase_size bind_off bind_size weak_bind_off "
                         "weak_bind_size lazy_bind_off lazy_bind_size export_off export_size")}[kind]
            v = {k: rng.getrandbits(20) for k in names.split()}
            body = pack(o + "%dI" % len(v), *v.values())
            g.fs(d, **v)
        elif kind in ("dylib", "dylinker"):
            name = "/usr/lib/%s.dylib" % word(rng)
            raw = name.encode() + b"\0"
            if kind == "dylib":
                cmd, text = rng.choice(((0xc, "Load dynamic library"), (0x80000018, "Load dynamic library weakly")))
                v = dict(offset=24, timestamp=rng.getrandbits(31), current_version=rng.getrandbits(24),
                         compatibility_version=rng.getrandbits(24))
                if cmd == 0x80000018:
                    v = {}
            else:
                cmd, text, v = 0xe, "Load dynamic linker", dict(offset=12)
            body = pack(o + "%dI" % len(v), *v.values()) + raw
            g.fs(d, **v)
            if v:
                g.f(d + "name", name)
                g.f(d[:-1], name)
                g.disp(c[:-1], '%s: %s' % (text, name))
        elif kind == "uuid":
            cmd, text, body = 0x1b, "UUID", rbytes(rng, 16)
            h = body.hex()
            g.f(d[:-1], body)
            g.disp(c[:-1], "UUID: " + "-".join((h[:8], h[8:12], h[12:16], h[16:20], h[20:])))
            g.desc(c[:-1], "UUID for corresponding dSYM file")
        elif kind == "version":
            cmd, text = rng.choice(((0x24, "Minimum macOS version"), (0x25, "Minimum iOS version")))
            a, b = [(rng.randrange(99), rng.randrange(256), rng.randrange(256)) for _ in "ab"]
            v = dict(version=a[0] << 16 | a[1] << 8 | a[2], sdk=b[0] << 16 | b[1] << 8 | b[2])
            body = pack(o + "2I", *v.values())
            g.fs(d, **v)
            g.disp(c[:-1], "%s: %d.%d.%d sdk %d.%d.%d" % (text, *a, *b))
        else:
            cmd, text = rng.choice(((5, "UNIX thread"), (0x80000028, "Main thread info"), (0x1d, "Code signature")))
            body = rbytes(rng, rng.randint(1, 30))
        body += bytes(-len(body) % (8 if wide else 4))
        if kind == "raw":
            g.f(d[:-1], body)
        g.fs(c, cmd=cmd, cmdsize=len(body) + 8)
        g.disp(c + "cmd", text)
        g.facts.append(("size", c[:-1], (len(body) + 8) * 8))
        cmds += pack(o + "II", cmd, len(body) + 8) + body
    cpu = rng.choice([k for k in MACH_CPU if bool(k & 0x01000000) == wide])
    sub, ft, flags = rng.randrange(20), rng.choice((1, 2, 6, 8)), rng.getrandbits(25)
    g.fs(p + "header/", cputype=cpu, cpusubtype=sub, filetype=ft, ncmds=n, sizeofcmds=len(cmds))
    for i, name in enumerate(MACH_FLAGS):
        g.f(p + "header/flags_" + name, bool(flags >> i & 1))
    g.count(p + "load_command", n)
    head = pack(o + "IiiIIII", 0xFEEDFACF if wide else 0xFEEDFACE, cpu, sub, ft, n, len(cmds), flags) + (b"\0\0\0\0" if wide else b"")
    return head + cmds + rbytes(rng, rng.randint(1, 400)), cpu, sub


@gen("misc")
def macho(rng):
    g = G("macho", "macho")
    g.data, cpu, _ = macho_image(rng, g)
    g.data = g.data.ljust(84, b"\0")
    return g


@gen("misc")
def macho_fat(rng):
    g = G("macho_fat", "macho_fat")
    n = rng.randint(1, 4)
    out = bytearray()
    head = pack(">II", 0xCAFEBABE, n)
    here = 4096
    for i in range(n):
        body, cpu, sub = macho_image(rng, g, "file[%d]/" % i)
        align = rng.choice((2, 12))
        here = -(-here // (1 << align)) << align
        out += bytes(here - 4096 - len(out)) + body
        head += pack(">iiIII", cpu, sub, here, len(body), align)
        g.fs("header/arch[%d]/" % i, cputype=cpu, cpusubtype=sub, offset=here, size=len(body), align=align)
        g.at("file[%d]" % i, here, len(body))
        here += len(body)
    g.f("header/nfat_arch", n)
    g.data = head.ljust(4096, b"\0") + bytes(out) + bytes(100)
    return g
