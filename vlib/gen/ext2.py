"""ext2 and ext3 file systems."""
import datetime

from vlib.gen import G, Texts, gen, pack, rbytes, word

EPOCH = datetime.datetime(1970, 1, 1)
TYPES = {"-": 8, "d": 4, "l": 10, "c": 2, "b": 6, "p": 1, "s": 12}
TYPE_NAMES = {"-": "Regular", "d": "Directory", "l": "Symbolic link", "c": "Character device", "b": "Block device", "p": "Fifo", "s": "Socket"}
ENTRY = {"-": (1, "Regular"), "d": (2, "Directory"), "l": (7, "Symlink"), "c": (3, "Char. dev."), "b": (4, "Block dev."), "p": (5, "Fifo"), "s": (6, "Socket")}
INODE_FLAGS = ["secrm", "unrm", "compr", "sync", "immutable", "append", "nodump", "noatime"]
RESERVED = {1: "list of bad blocks", 2: "Root directory", 3: "User quota inode", 4: "Group quota inode", 5: "Boot loader",
            6: "Undelete directory", 7: "Reserved group descriptors", 8: "EXT3 journal"}


def stamp(rng):
    n = rng.randrange(1, 1 << 31)
    return n, EPOCH + datetime.timedelta(seconds=n)


def mode_text(kind, perm):
    """what `ls -l` prints"""
    out = list("-rwxrwxrwx")
    for i in range(9):
        if not perm >> (8 - i) & 1:
            out[1 + i] = "-"
    out[0] = kind
    for bit, at, c in ((0o4000, 3, "s"), (0o2000, 6, "s"), (0o1000, 9, "t")):
        if perm & bit:
            out[at] = c if out[at] == "x" else c.upper()
    return "".join(out)


def size_text(n):
    if n < 10000:
        return "%d bytes" % n
    return None


def total_text(n):
    return size_text(n) or ("%.1f KB" % (n / 1024) if n < 1 << 20 else "%.1f MB" % (n / (1 << 20)))


def content_check(group, name, data, block, subfacts):
    from hachoir.parser import guessParser
    from vlib.facts import check_tree

    def check(parser):
        tree = parser[group]
        list(tree)
        stream = tree[name].getSubIStream()
        bad = []
        if stream.size != len(data) * 8:
            bad.append(("ext2:size", "%s: %s bits instead of %d" % (name, stream.size, len(data) * 8)))
        elif stream.readBytes(0, len(data)) != data:
            bad.append(("ext2:content", "%s: other bytes" % name))
        if subfacts is not None:
            sub = guessParser(tree[name].getSubIStream())
            if sub is None:
                bad.append(("ext2:directory", "no parser for " + name))
            else:
                bad += check_tree(subfacts, sub)
        return bad
    return check


@gen("misc")
def ext2(rng):
    g = G("ext2", "ext2")
    texts = Texts(rng)
    log = rng.choice((0, 0, 1, 2))
    bs = 1024 << log
    first = 1 if log == 0 else 0
    per = bs // 4
    isize = rng.choice((0, 128, 128, 256))
    rev = 0 if isize == 0 else 1
    size_of_inode = isize or 128
    ngroups = rng.choice((1, 1, 2, 3))
    g.use("%d groups" % ngroups, "block %d" % bs)
    bpg = 8 * rng.randint(24, 60)
    ipg = 8 * rng.randint(2, 4)
    while ipg * size_of_inode % bs:
        ipg += 8
    itable = ipg * size_of_inode // bs
    last = bpg if ngroups == 1 or rng.random() < .3 else rng.randint(itable + 40, bpg)
    if ngroups == 1 and rng.random() < .5:
        last = rng.randint(itable + 80, bpg) if bpg > itable + 90 else bpg
    nblocks = first + (ngroups - 1) * bpg + last
    image = bytearray(nblocks * bs)
    os_id = rng.choice((0, 0, 0, 1, 2, 3))
    journal = rng.random() < .3
    used_blocks = set(range(first))
    bits = {n: False for n in range(1, ngroups * ipg + 1)}
    groups = []
    gdt = (first + 1)
    for k in range(ngroups):
        base = first + k * bpg
        end = min(base + bpg, nblocks)
        copies = 2 if k == 0 or rng.random() < .6 else 0
        used_blocks.update(range(base, base + copies))
        pos = base + copies + rng.choice((0, 0, 1, 3))
        where = {}
        order = ["block_bitmap", "inode_bitmap", "inode_table"]
        if rng.random() < .3:
            rng.shuffle(order)
        for name in order:
            where[name] = pos
            n = itable if name == "inode_table" else 1
            used_blocks.update(range(pos, pos + n))
            pos += n
        free = list(range(pos, end))
        if rng.random() < .5:
            # files in several pieces
            cut = [free[i:i + 3] for i in range(0, len(free), 3)]
            rng.shuffle(cut)
            free = [b for c in cut for b in c]
            g.use("fragmented")
        groups.append((base, end, where, free))

    def take(free, n):
        out = [free.pop(0) for _ in range(n)]
        used_blocks.update(out)
        return out

    counters = {}
    names = [0]
    fills = []
    for k, (base, end, where, free) in enumerate(groups):
        gp = "group[%d]/" % k
        tp = gp + "inode_table/"
        g.at(tp[:-1], where["inode_table"] * bs, itable * bs)
        g.desc(tp[:-1], "Inodes: %d items" % ipg)
        g.count(tp + "inode", ipg)
        for i in range(ipg):
            num = 1 + k * ipg + i
            p = tp + "inode[%d]/" % i
            at = where["inode_table"] * bs + i * size_of_inode
            g.at(p[:-1], at, size_of_inode)
            if num == 2:
                kind = "d"
            elif num == 8 and journal:
                kind = "-"
            elif num < 11:
                kind = None
            else:
                kind = rng.choice("--d-lcbps  ").strip() or None
            if kind is None:
                bits[num] = num < 11
                if num < 11:
                    g.desc(p[:-1], "Inode %d: (unused)" % num)
                else:
                    g.f(p + "links_count", 0)
                continue
            bits[num] = True
            g.use("kind " + kind)
            perm = rng.getrandbits(12)
            times = {t: stamp(rng) for t in ("atime", "ctime", "mtime")}
            uid, gid, links = rng.getrandbits(16), rng.getrandbits(16), rng.randint(1, 400)
            flags = rng.getrandbits(8)
            data = b""
            acl = 0
            sub = None
            if kind == "-":
                size = rng.choice((0, 1, bs - 1, bs, bs + 1, rng.randrange(12 * bs), 12 * bs + 1 if rng.random() < .3 else 5, rng.randrange(16 * bs) if rng.random() < .3 else 9))
                if num == 8:
                    size = 3 * bs
                data = rbytes(rng, size)
            elif kind == "d":
                nb = rng.randint(1, 3)
                sub = G("ext2:directory", "ext2")
                sub.description = None
                entries = 0
                for b in range(nb):
                    left = bs
                    out = b""
                    while left:
                        name = ("." if not entries else ".." if entries == 1 else texts()[:rng.choice((1, 20, 200))].encode().decode()).encode("utf-8")
                        et, etname = ENTRY["d" if entries < 2 else rng.choice(list(ENTRY))]
                        ino = rng.randrange(1, 1 << 32)
                        if entries > 1 and rng.random() < .1:
                            name, et, ino, etname = b"", 0, 0, "0"
                        need = 8 + (len(name) + 3) // 4 * 4
                        if left - need < 300 or (entries > 5 and rng.random() < .2):
                            need = left
                        e = "entry[%d]/" % entries
                        sub.at(e[:-1], b * bs + bs - left, need)
                        sub.fs(e, inode=ino, rec_len=need, name_len=len(name), file_type=et)
                        if et:
                            sub.disp(e + "file_type", etname)
                        if name:
                            text = name.decode("latin-1")
                            sub.f(e + "name", text)
                            sub.desc(e[:-1], "Directory entry: " + text)
                        else:
                            sub.absent(e + "name")
                            sub.desc(e[:-1], "Directory entry (empty)")
                        out += (pack("<IHBB", ino, need, len(name), et) + name).ljust(need, b"\0")
                        left -= need
                        entries += 1
                    data += out
                sub.count("entry", entries)
            elif kind == "l":
                target = (texts(1, 3).replace(" ", "/") + "/" + word(rng, 1, 90))[:rng.choice((1, 30, 59, 60, 90))]
                target = target.encode("ascii", "replace")
                data = target
            elif kind in "cb":
                dev = (rng.randrange(256), rng.randrange(256))
            nb = -(-len(data) // bs)
            fast = kind == "l" and len(data) < 60
            if fast:
                nb = 0
                if rng.random() < .3:
                    # extended attributes in a block
                    acl = take(free, 1)[0]
                    g.use("acl")
            extra = 1 if nb > 12 else 0
            if nb + extra > len(free) - 2:
                # no more space in this group
                kind = "p" if num > 11 else "-"
                if num == 2:
                    raise AssertionError("no room for the root directory")
                data, nb, extra, fast, sub = b"", 0, 0, False, None
            hole = None
            blocks = take(free, nb)
            if nb > 3 and rng.random() < .3:
                # a hole (no block, zeros): the parser gives the blocks which exist
                hole = rng.randrange(nb - 1)
            for b, no in enumerate(blocks):
                if b != hole:
                    image[no * bs:(no + 1) * bs] = data[b * bs:(b + 1) * bs].ljust(bs, b"\0")
            words = [0 if b == hole else no for b, no in enumerate(blocks)]
            ind = take(free, 1)[0] if extra else 0
            if extra:
                rest = words[12:] + [0] * (per - len(words) + 12)
                image[ind * bs:(ind + 1) * bs] = b"".join(pack("<I", w) for w in rest)
                g.use("indirect")
            if fast:
                area = data.ljust(60, b"\0")
                g.f(p + "link_target", data.decode())
            elif kind in "cb":
                area = bytes([dev[1], dev[0]]) + bytes(58)
                g.fs(p, dev_major=dev[0], dev_minor=dev[1])
            else:
                direct = (words[:12] + [0] * 12)[:12] + [ind, 0, 0]
                area = b"".join(pack("<I", w) for w in direct)
                for j in (0, 1, 11, 12, 13, 14):
                    g.f(p + "block[%d]" % j, direct[j])
                g.count(p + "block", 15)
            mode = TYPES[kind] << 12 | perm
            nsect = (len([w for w in words if w]) + extra + (1 if acl else 0)) * (bs // 512)
            version, generation = rng.getrandbits(32) if os_id == 0 else 0, rng.getrandbits(32)
            dtime = 0
            raw = pack("<HHIIIIIHHIII", mode, uid, len(data), times["atime"][0], times["ctime"][0], times["mtime"][0], dtime, gid, links, nsect, flags, version)
            raw += area + pack("<IIII", generation, acl, 0, 0)
            g.fs(p, uid=uid, size=len(data), gid=gid, links_count=links, blocks=nsect, version=generation, file_acl=acl, size_high=0, faddr=0,
                 **{t: v[1] for t, v in times.items()})
            g.f(p + "dtime", EPOCH)
            if os_id == 0:
                tail = [rng.getrandbits(16) for _ in range(4)] + [rng.getrandbits(16)]
                raw += pack("<HHHHHH", 0, *tail[1:], 0)
                g.fs(p, version_high=version, blocks_high=0, file_acl_high=tail[1], uid_high=tail[2], gid_high=tail[3], checksum=tail[4])
            elif os_id == 1:
                h = [rng.randrange(256), rng.randrange(256), rng.getrandbits(16), rng.getrandbits(16), rng.getrandbits(16), rng.getrandbits(32)]
                raw += pack("<BBHHHI", *h)
                g.fs(p, **dict(zip(("frag", "fsize", "mode_high", "uid_high", "gid_high", "author"), h)))
                g.use("hurd")
            else:
                end12 = rbytes(rng, 12)
                raw += end12
                g.f(p + "raw", end12)
            assert len(raw) == 128
            raw += rbytes(rng, size_of_inode - 128)
            image[at:at + size_of_inode] = raw
            text = mode_text("-" if kind == "-" else kind, perm)
            g.disp(p + "mode", text)
            g.f(p + "mode/file_type", TYPES[kind])
            g.disp(p + "mode/file_type", TYPE_NAMES[kind])
            for j, n in enumerate(INODE_FLAGS):
                g.f(p + "flags/" + n, bool(flags >> j & 1))
            human = size_text(len(data))
            if num == 2:
                if human:
                    g.desc(p[:-1], "Inode 2: Root directory, size=%s, mode=%s" % (human, text))
            elif num < 11:
                g.desc(p[:-1], "Inode %d: %s" % (num, RESERVED.get(num, "special")))
            elif human:
                what = TYPE_NAMES[kind]
                if kind in "cb":
                    what += " (%d,%d)" % dev
                elif fast:
                    what += " (-> %s)" % data.decode()
                g.desc(p[:-1], "Inode %d: %s, size=%s, mode=%s" % (num, what, human, text))
            shown = [no for no in words if no]
            for b, no in enumerate(shown):
                g.at(gp + "inode[%d]block[%d]" % (i, b), no * bs, bs)
            g.count(gp + "inode[%d]block" % i, len(shown))
            if extra:
                q = gp + "inode[%d]indirect" % i
                g.at(q, ind * bs, bs)
                g.f(q + "/block[0]", rest[0])
                g.f(q + "/block[%d]" % (per - 1), rest[-1])
            if shown:
                content = b"".join(bytes(image[no * bs:(no + 1) * bs]) for no in shown)
                if sub is not None and hole is None:
                    g.checks.append(content_check(gp[:-1], "inode[%d]block[0]" % i, content, bs, sub))
                elif sub is None:
                    g.checks.append(content_check(gp[:-1], "inode[%d]block[%d]" % (i, len(shown) - 1), content, bs, None))
    # bitmaps and descriptors
    table = b""
    for k, (base, end, where, free) in enumerate(groups):
        gp = "group[%d]/" % k
        n = end - base
        for name, count, start, is_used, word_ in (("block_bitmap", n, base, lambda x: x in used_blocks, "Block"),
                                                   ("inode_bitmap", ipg, 1 + k * ipg, lambda x: bits[x], "Inode")):
            raw = bytearray(b"\xff" * bs)
            for j in range(count):
                if not is_used(start + j):
                    raw[j // 8] &= ~(1 << j % 8)
            image[where[name] * bs:(where[name] + 1) * bs] = raw
            g.at(gp + name, where[name] * bs, bs)
            g.desc(gp + name, "%s bitmap: %d items" % (word_, count))
            g.count(gp + name + "/item", count)
            for j in sorted({0, count - 1, *(rng.randrange(count) for _ in range(12))}):
                g.f(gp + name + "/item[%d]" % j, is_used(start + j))
                g.desc(gp + name + "/item[%d]" % j, "%s %d" % (word_, start + j))
        free_b = sum(1 for b in range(base, end) if b not in used_blocks)
        free_i = sum(1 for j in range(ipg) if not bits[1 + k * ipg + j])
        dirs, gflags = rng.randrange(ipg), rng.randrange(8)
        d = [rng.getrandbits(32)] + [rng.getrandbits(16) for _ in range(4)]
        table += pack("<IIIHHHHIHHHH", where["block_bitmap"], where["inode_bitmap"], where["inode_table"], free_b, free_i, dirs, gflags, *d)
        q = "group_desc/group[%d]/" % k
        g.at(q[:-1], gdt * bs + 32 * k, 32)
        g.desc(q[:-1], "Group descriptor: blocks %d-%d" % (base, end - 1))
        g.fs(q, **where, free_blocks_count=free_b, free_inodes_count=free_i, used_dirs_count=dirs, exclude_bitmap=d[0], block_bitmap_csum=d[1],
             inode_bitmap_csum=d[2], itable_unused=d[3], checksum=d[4])
        for j, f in enumerate(("inode_uninit", "block_uninit", "inode_zeroed")):
            g.f(q + "bg_flags/" + f, bool(gflags >> j & 1))
        g.desc("group[%d]" % k, "Group %d" % k)
    g.count("group_desc/group", ngroups)
    g.desc("group_desc", "Group descriptors: %d items" % ngroups)
    g.count("group", ngroups)
    image[gdt * bs:gdt * bs + len(table)] = table
    # superblock
    s = "superblock/"
    times = {t: stamp(rng) for t in ("mtime", "wtime", "last_check", "mkfs_time")}
    free_blocks = nblocks - len(used_blocks)
    head = dict(inodes_count=ngroups * ipg, blocks_count=nblocks, r_blocks_count=rng.randrange(nblocks), free_blocks_count=free_blocks,
                free_inodes_count=sum(not x for x in bits.values()), first_data_block=first, log_block_size=log, log_frag_size=log, blocks_per_group=bpg,
                frags_per_group=bpg, inodes_per_group=ipg)
    raw = pack("<11I", *head.values()) + pack("<II", times["mtime"][0], times["wtime"][0])
    mid = dict(mnt_count=rng.getrandbits(16), max_mnt_count=rng.getrandbits(16), magic=0xef53, state=rng.choice((1, 1, 2, 4)), errors=rng.choice((1, 2, 3)),
               minor_rev_level=rng.randrange(10))
    raw += pack("<6H", *mid.values()) + pack("<I", times["last_check"][0])
    days = rng.choice((0, 1, 180))
    raw += pack("<III", days * 86400, os_id, rev)
    lo = dict(def_resuid=rng.getrandbits(16), def_resgid=rng.getrandbits(16))
    hi = dict(first_ino=11 if rev else 0, inode_size=isize, block_group_nr=0)
    raw += pack("<HHIHH", *lo.values(), *hi.values())
    compat = (rng.getrandbits(10) & ~4) | (4 if journal else 0)
    incompat = 2
    ro = rng.getrandbits(2)
    uid = rbytes(rng, 16)
    name, mounted = texts()[:16].encode("ascii", "replace").decode().strip() if rng.random() < .8 else "", "/" + word(rng, 0, 40)
    raw += pack("<III", compat, incompat, ro) + uid + name.encode().ljust(16, b"\0") + mounted.encode().ljust(64, b"\0")
    pre = dict(compression=rng.getrandbits(32), prealloc_blocks=rng.randrange(256), prealloc_dir_blocks=rng.randrange(256), reserved_gdt_blocks=rng.getrandbits(16))
    juuid = rbytes(rng, 16)
    jn = dict(journal_inum=8 if journal else 0, journal_dev=0, last_orphan=rng.getrandbits(32))
    seed = rbytes(rng, 16)
    hv, jb, desc_size = rng.randrange(6), rng.randrange(2), rng.choice((0, 32))
    opts, meta_bg = rng.getrandbits(5), rng.getrandbits(32)
    backup = rbytes(rng, 68)
    raw += pack("<IBBH", *pre.values()) + juuid + pack("<III", *jn.values()) + seed + pack("<BBHIII", hv, jb, desc_size, opts, meta_bg, times["mkfs_time"][0]) + backup
    image[1024:1024 + len(raw)] = raw
    g.at("superblock", 1024, 1024)
    g.desc("superblock", "Superblock: %s file system" % ("ext3" if journal else "ext2"))
    g.fs(s, **head, **mid, **lo, **hi, **pre, **jn, journal_uuid=juuid, hash_seed=seed, def_hash_version=hv, jnl_backup_type=jb, desc_size=desc_size,
         first_meta_bg=meta_bg, jnl_blocks=backup, volume_name=name, last_mounted=mounted, check_interval=days * 86400, creator_os=os_id, rev_level=rev,
         **{t: v[1] for t, v in times.items()})
    h = uid.hex()
    g.f(s + "uuid", uid)
    g.disp(s + "uuid", "-".join((h[:8], h[8:12], h[12:16], h[16:20], h[20:])))
    g.disp(s + "state", {1: "Valid (Unmounted cleanly)", 2: "Error (Errors detected)", 4: "Orphan FS (Orphans being recovered)"}[mid["state"]])
    g.disp(s + "errors", {1: "Continue", 2: "Remount R/O", 3: "Panic"}[mid["errors"]])
    g.disp(s + "creator_os", {0: "Linux", 1: "Hurd", 2: "Masix", 3: "FreeBSD"}[os_id])
    g.disp(s + "def_hash_version", ["Legacy", "Half MD4", "TEA", "Legacy unsigned", "Half MD4 unsigned", "TEA unsigned"][hv])
    for j, f in enumerate(("dir_prealloc", "imagic_inodes", "has_journal", "ext_attr", "resize_inode", "dir_index")):
        g.f(s + "feature_compat/" + f, bool(compat >> j & 1))
    g.f(s + "feature_incompat/filetype", True)
    g.f(s + "feature_incompat/extents", False)
    for j, f in enumerate(("sparse_super", "large_file")):
        g.f(s + "feature_ro_compat/" + f, bool(ro >> j & 1))
    for j, f in enumerate(("debug", "bsdgroups", "xattr_user", "acl", "uid16")):
        g.f(s + "default_mount_opts/" + f, bool(opts >> j & 1))
    g.description = "%s file system: total=%s, used=%s, block=%s" % (
        "EXT3" if journal else "EXT2", total_text(nblocks * bs), total_text(len(used_blocks) * bs), total_text(bs))
    g.data = bytes(image)
    return g
