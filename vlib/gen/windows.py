"""Windows programs (PE, NE, MS-DOS) and their resources."""
import datetime

from vlib.gen import G, Texts, gen, pack, rbytes, word

EPOCH = datetime.datetime(1970, 1, 1)

CPU = {0x14c: "Intel 80386", 0x166: "R4000 (MIPS), little endian", 0x1c0: "ARM", 0x200: "Intel IA64", 0x1f0: "IBM Power PC, little endian"}
SUBSYSTEM = {1: "Native", 2: "Windows GUI", 3: "Windows CUI", 7: "POSIX CUI", 9: "Windows CE GUI", 10: "EFI application", 14: "XBOX"}
DIRS = ("export", "import", "resource", "exception", "certificate", "relocation", "debug", "description", "global_ptr", "tls",
        "load_config", "bound_import", "import_address", "data_dir[13]", "data_dir[14]", "data_dir[15]")


def pad(data, n, fill=b"\0"):
    return data + fill * (-len(data) % n)


def date32(rng):
    v = rng.randint(10 ** 8, 1890000000)
    return v, EPOCH + datetime.timedelta(seconds=v)


def msdos_header(rng, g, new, **kw):
    v = dict(size_mod_512=rng.randrange(512), size_div_512=rng.randint(4, 200), reloc_entries=rng.randrange(99), code_offset=rng.randint(4, 64),
             needed_memory=rng.randrange(65536), max_memory=rng.randrange(65536), init_ss_sp=rng.getrandbits(32), checksum=rng.getrandbits(16),
             init_cs_ip=rng.getrandbits(32), reloc_offset=rng.randrange(30, 100), overlay_number=rng.randrange(5))
    if new and rng.random() < .3:
        v.update(size_div_512=rng.randrange(4), checksum=0)
    v.update(kw)
    oem = dict(oem_id=rng.getrandbits(16), oem_info=rng.getrandbits(16))
    g.fs("msdos/", header="MZ", next_offset=new, **v, **oem)
    g.disp("msdos/init_cs_ip", "0x%08x" % v["init_cs_ip"])
    a = list(v.values())
    return b"MZ" + pack("<6HIHIHH8x2H20xI", *a, *oem.values(), new)


@gen("misc")
def msdos_exe(rng):
    g = G("msdos_exe", "exe")
    pages, mod = rng.randint(4, 12), rng.choice((0, 1, 100, 511))
    size = pages * 512 if not mod else (pages - 1) * 512 + mod
    g.use("last page full" if not mod else "partial last page")
    g.data = msdos_header(rng, g, rng.choice((0, 0x10)), size_div_512=pages, size_mod_512=mod)
    g.data += b"\x90" * (size - len(g.data))
    g.size = size
    g.description = "MS-DOS executable"
    return g


# ------------------------------------------------------------------ resources

def version_values(rng):
    t = Texts(rng)
    keys = ["ProductName", "LegalCopyright", "LegalTrademarks", "CompanyName", "FileDescription", "ProductVersion", "InternalName",
            "OriginalFilename", "FileVersion", "Comments", "PrivateBuild"]
    rng.shuffle(keys)
    return {k: t() for k in keys[:rng.randint(0, len(keys))]}


def version_meta(g, values, comments):
    attr = {"ProductName": "title", "FileDescription": "title", "LegalCopyright": "copyright", "LegalTrademarks": "copyright",
            "CompanyName": "author", "ProductVersion": "version"}
    out = {k: [] for k in attr.values()}
    for k, v in values.items():
        if k in attr:
            out[attr[k]].append(v)
        elif k in ("Comments", "PrivateBuild"):
            comments.append("%s=%s" % (k, v))
    for k, v in out.items():
        g.m(k, *v)
    g.m("comment", *comments)


OS_MAJOR = {1: "DOS", 2: "OS/2 16-bit", 3: "OS/2 32-bit", 4: "Windows NT"}
OS_MINOR = {0: "Base", 1: "Windows 16-bit", 2: "Presentation Manager 16-bit", 3: "Presentation Manager 32-bit", 4: "Windows 32-bit"}
FILE_TYPE = {1: "Application", 2: "DLL", 3: "Driver", 4: "Font", 5: "VXD", 7: "Static library"}
DRIVER = {1: "Printer", 2: "Keyboard", 3: "Language", 4: "Display", 5: "Mouse", 6: "Network", 7: "System", 8: "Installable", 9: "Sound"}
FONT = {1: "Raster", 2: "Vector", 3: "TrueType"}


def fixed_info(rng, g, p):
    versions = [(rng.randrange(65536), rng.randrange(65536)) for _ in range(4)]
    mask = rng.choice((0x3f, 0x17))
    flags = rng.getrandbits(6)
    major, minor = rng.choice(sorted(OS_MAJOR)), rng.choice(sorted(OS_MINOR))
    kind = rng.choice(sorted(FILE_TYPE))
    names = {3: DRIVER, 4: FONT}.get(kind, {0: None})
    sub = rng.choice(sorted(names))
    g.fs(p, magic=0xFEEF04BD, file_flags_mask=mask, debug=bool(flags & 1), prerelease=bool(flags & 2), patched=bool(flags & 4),
         private_build=bool(flags & 8), info_inferred=bool(flags & 16), special_build=bool(flags & 32),
         file_os_major=major, file_os_minor=minor, file_type=kind, file_subfile=sub)
    g.disp(p + "file_os_major", OS_MAJOR[major])
    g.disp(p + "file_os_minor", OS_MINOR[minor])
    g.disp(p + "file_type", FILE_TYPE[kind])
    if names[sub]:
        g.disp(p + "file_subfile", names[sub])
        g.use("driver or font")
    for name, (low, high) in zip(("file_ver_ms", "file_ver_ls", "product_ver_ms", "product_ver_ls"), versions):
        g.fs(p + name + "/", minor=low, major=high)
    g.fs(p + "struct_ver/", minor=0, major=1)
    body = pack("<IHH", 0xFEEF04BD, 0, 1) + b"".join(pack("<HH", *v) for v in versions)
    return body + pack("<IIHHIIII", mask, flags, minor, major, kind, sub, 0, 0)


def vnode(g, p, name, value=b"", text=None, children=(), wide=True):
    """children: functions path -> bytes"""
    if wide:
        head = name.encode("utf-16-le") + b"\0\0"
        start = 6
    else:
        head = name.encode("latin-1") + b"\0"
        start = 4
    if text is not None:
        value = (text + "\0").encode("utf-16-le" if wide else "latin-1")
    body = bytes(start) + head
    body = pad(body, 4)
    body += value
    if children:
        for i, child in enumerate(children):
            body = pad(body, 4)
            body += child("%snode[%d]/" % (p, i))
    size = len(body)
    n = len(value) // 2 if text is not None and wide else len(value)
    if wide:
        body = pack("<HHH", size, n, int(text is not None or not value)) + body[6:]
    else:
        body = pack("<HH", size, n) + body[4:]
    g.fs(p, size=size, data_size=n, name=name)
    if text is not None:
        g.f(p + "value", text if wide else text + "\0")
        if wide:
            g.desc(p[:-1], "Version info node: %s=%s" % (name, text))
    else:
        g.desc(p[:-1], "Version info node: %s" % name + ("=" if False else ""))
    return body


def version_resource(rng, g, p, values, wide=True):
    lang = rng.choice(((0x409, 1200), (0x40c, 1252)))
    code = "%04X%04X" % lang
    strings = [lambda q, k=k, v=v: vnode(g, q, k, text=v, wide=wide) for k, v in values.items()]
    parts = [lambda q: vnode(g, q, "StringFileInfo", wide=wide, children=[
        lambda r: vnode(g, r, code, wide=wide, children=strings)])]
    if wide and rng.random() < .7:
        parts.insert(rng.randrange(2), lambda q: vnode(g, q, "VarFileInfo", children=[
            lambda r: translation(g, r, lang)]))
    return vnode(g, p, "VS_VERSION_INFO", fixed_info(rng, g, p + "value/"), children=parts, wide=wide)


def translation(g, p, lang):
    data = pack("<HH", *lang)
    name = "Translation"
    body = pad(bytes(6) + name.encode("utf-16-le") + b"\0\0", 4) + data
    g.fs(p, size=len(body), data_size=4, name=name, type=0, value=data)
    return pack("<HHH", len(body), 4, 0) + body[6:]


def resource_section(rng, g, p, rva, phys, values):
    """the directories, then the names, the entries and the contents"""
    kinds = rng.sample((1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 14), rng.randint(0, 4))
    if values is not None:
        kinds.append(16)
    kinds.sort()
    if not kinds:
        kinds = [10]
    named = [word(rng, 2, 9).upper()] if rng.random() < .3 else []
    if named:
        g.use("named type")
    # tree: [(type, [(id, [(lang, data)])])]
    label = {1: "Cursor", 2: "Bitmap", 3: "Icon", 4: "Menu", 5: "Dialog", 6: "String table", 9: "Accelerators", 10: "Unformatted resource data",
             11: "Message table", 12: "Group cursor", 14: "Group icon", 16: "Version information"}
    field = {1: "cursor", 2: "bitmap", 3: "icon", 4: "menu", 5: "dialog", 6: "string_table", 9: "accelerators", 10: "raw_res", 11: "message_table",
             12: "group_cursor", 14: "group_icon"}
    root = []
    for t in named + kinds:
        ids = []
        for k in range(1 if t == 16 else rng.choice((1, 1, 2, 3))):
            name = word(rng, 1, 6).upper() if t != 16 and rng.random() < .3 else rng.randint(1, 999)
            langs = [(lg, None) for lg in sorted(rng.sample((0, 0x409, 0x40c), 1 if t == 16 else rng.choice((1, 1, 2))))]
            ids.append((name, langs))
        ids.sort(key=lambda e: (isinstance(e[0], int), e[0]))
        root.append((t, ids))
    # layout: breadth first
    blocks = []     # (entries: [(key, target)], level, timestamp)
    stamp, when = date32(rng)
    ver = (rng.randrange(9), rng.randrange(9))

    def dirsize(n):
        return 16 + 8 * n
    level1 = dirsize(len(root))
    level2 = level1 + sum(dirsize(len(ids)) for t, ids in root)
    leaves = [(t, name, langs) for t, ids in root for name, langs in ids]
    end = level2 + sum(dirsize(len(langs)) for _, _, langs in leaves)
    strings, where = b"", {}
    for key in [t for t, _ in root] + [n for _, n, _ in leaves]:
        if isinstance(key, str) and key not in where:
            where[key] = end + len(strings)
            strings += pack("<H", len(key)) + key.encode("utf-16-le")
    strings = pad(strings, 4)
    entry_at = end + len(strings)
    nentry = sum(len(langs) for _, _, langs in leaves)
    data_at = entry_at + 16 * nentry
    data_at += -data_at % 16

    def directory(entries, path, names_first):
        nb = sum(isinstance(k, str) for k, _, _ in entries)
        g.fs(path + "header/", creation_date=when, maj_ver=ver[0], min_ver=ver[1], nb_name=nb, nb_index=len(entries) - nb)
        out = pack("<IIHHHH", 0, stamp, ver[0], ver[1], nb, len(entries) - nb)
        i = j = 0
        for key, target, sub in entries:
            if isinstance(key, str):
                e = "%sname[%d]/" % (path, i)
                i += 1
                out += pack("<II", 0x80000000 | where[key], (0x80000000 if sub else 0) | target)
                g.fs(e, name_offset=where[key], is_name=True, offset=target, is_subdir=sub)
            else:
                e = "%sindex[%d]/" % (path, j)
                j += 1
                out += pack("<II", key, (0x80000000 if sub else 0) | target)
                g.fs(e, type=key, offset=target, is_subdir=sub)
                g.disp(e + "type", label[key] if path.endswith("root/") else "ID %d" % key)
        return out

    out = b""
    offset = level1
    entries = []
    for t, ids in root:
        entries.append((t, offset, True))
        offset += dirsize(len(ids))
    out += directory(entries, p + "root/", True)
    # the fields of the second and third levels: named ones are read first
    offset = level2
    for i, (t, ids) in enumerate(root):
        entries = []
        for name, langs in ids:
            entries.append((name, offset, True))
            offset += dirsize(len(langs))
        out += directory(entries, "%sdirectory[1][0][%d]/" % (p, i), True)
    offset = entry_at
    n = 0
    for i, (t, ids) in enumerate(root):
        for k, (name, langs) in enumerate(ids):
            entries = []
            for lg, _ in langs:
                entries.append((lg, offset, False))
                offset += 16
            out += directory(sorted(entries), "%sdirectory[2][%d][%d]/" % (p, i, k), True)
            n += 1
    assert len(out) == end, (len(out), end)
    out += strings
    body = b""
    table = b""
    counts = {}
    for i, (t, name, langs) in enumerate((t, name, lg) for t, name, langs in leaves for lg in langs):
        at = data_at + len(body)
        e = "%sentry[%d]/" % (p, i)
        if t == 16:
            data = version_resource(rng, g, p + "version_info/node[0]/", values)
            g.at(p + "version_info", phys + at, len(data))
        else:
            base = field.get(t, "content")
            k = counts.setdefault(base, 0)
            counts[base] += 1
            path = "%s%s[%d]" % (p, base, k)
            if t == 6:
                texts = [word(rng, 0, 9) for _ in range(16)]
                data = b"".join(pack("<H", len(x)) + x.encode("utf-16-le") for x in texts)
                for m, x in enumerate(texts):
                    g.f("%s/string[%d]" % (path, m), x)
            elif t == 3:
                w, h = rng.randint(1, 64), rng.randint(1, 128)
                data = pack("<IiiHHIIiiII", 40, w, h, 1, 8, 0, 0, 0, 0, 0, 0) + rbytes(rng, rng.randint(1, 50))
                g.fs(path + "/bmp_header/", width=w, height=h, nb_planes=1, bpp=8)
                g.f(path + "/raw", data[40:])
            else:
                data = rbytes(rng, rng.randint(1, 60))
                g.f(path + "/content", data)
            g.at(path, phys + at, len(data))
        page = rng.choice((0, 1252))
        g.fs(e, rva=rva + at, size=len(data), codepage=page)
        g.at(e[:-1], phys + entry_at + 16 * i, 16)
        table += pack("<IIII", rva + at, len(data), page, 0)
        body += pad(data, rng.choice((4, 8, 16)))
    out = (out + table).ljust(data_at, b"\0") + body
    return out


@gen("misc")
def pe(rng):
    g = G("pe", "exe")
    new = rng.choice((80, 96, 128, 256, 1000))
    out = msdos_header(rng, g, new, code_offset=4).ljust(new, b"\0")
    wide = rng.random() < .4
    cpu = rng.choice(sorted(CPU))
    sub = rng.choice(sorted(SUBSYSTEM))
    ndir = rng.choice((16, 16, 16, 3, 10))
    values = version_values(rng) if rng.random() < .6 else None
    has_rsrc = values is not None or rng.random() < .3
    names = rng.sample((".text", ".data", ".rdata", ".bss", ".reloc", "CODE", "UPX0"), rng.randint(1, 4))
    if has_rsrc:
        names.insert(rng.randint(0, len(names)), ".rsrc")
        g.use("resources" if values is None else "version information")
    stamp, when = date32(rng)
    flags = rng.getrandbits(16) & ~0x840
    opt_size = 24 + (88 if wide else 72) + 8 * ndir
    h = dict(header=b"PE\0\0", cpu=cpu, nb_section=len(names), creation_date=when, ptr_to_sym=rng.getrandbits(20), nb_symbols=rng.getrandbits(10))
    g.fs("pe_header/", **h, opt_hdr_size=opt_size)
    for bit, name in ((0, "reloc_stripped"), (1, "exec_image"), (2, "line_nb_stripped"), (3, "local_sym_stripped"), (4, "aggr_ws"), (5, "large_addr"),
                      (7, "reverse_lo"), (8, "32bit"), (9, "is_stripped"), (10, "swap"), (12, "is_system"), (13, "is_dll"), (14, "up"), (15, "reverse_hi")):
        g.f("pe_header/" + name, bool(flags >> bit & 1))
    g.disp("pe_header/cpu", CPU[cpu])
    out += pack("<4sHHIIIHH", b"PE\0\0", cpu, len(names), stamp, h["ptr_to_sym"], h["nb_symbols"], opt_size, flags)
    # sections
    first = len(out) + opt_size + 40 * len(names)
    first += -first % 512
    rva, here = 0x1000, first
    bodies, heads, rsrc = [], b"", (0, 0)
    k = 0
    for i, name in enumerate(names):
        s = "section_hdr[%d]/" % i
        data = b"" if name == ".bss" else rbytes(rng, rng.randint(1, 900))
        fname = "section_" + name.strip(".")
        if name == ".rsrc":
            data = resource_section(rng, g, fname + "/", rva, here, values)
            rsrc = (rva, len(data))
        mem = max(1, len(data) + rng.choice((0, 0, -1, 3000)))
        raw = pad(data, 512)
        att = sum(1 << b for b in (5, 6, 7, 9, 11, 12, 14, 15, 24, 25, 26, 27, 28, 29, 30, 31) if rng.random() < .5)
        v = dict(mem_size=mem, rva=rva, phys_size=len(raw), phys_off=here if raw else 0)
        g.fs(s, name=name, **v)
        for b, f in ((5, "has_code"), (6, "has_init_data"), (7, "has_uninit_data"), (9, "has_comment"), (11, "remove"), (12, "has_comdata"),
                     (14, "no_defer_spec_exc"), (15, "gp_rel"), (24, "ext_reloc"), (25, "discarded"), (26, "is_not_cached"), (27, "is_not_paged"),
                     (28, "is_shareable"), (29, "is_executable"), (30, "is_readable"), (31, "is_writable")):
            g.f(s + f, bool(att >> b & 1))
        heads += pack("<8s4I12xI", name.encode(), *v.values(), att)
        if raw:
            g.at(fname, here, len(raw))
            if name != ".rsrc":
                g.f(fname, raw)
            bodies.append(raw)
        here += len(raw)
        rva += -(-max(mem, len(raw)) // 4096) * 4096
    # optional header
    sizes = [rng.getrandbits(31) for _ in range(3)]
    entry, code, base = rng.getrandbits(32), rng.getrandbits(32), rng.getrandbits(32)
    image = rng.getrandbits(64 if wide else 32)
    align = dict(sect_align=4096, file_align=512)
    vers = dict(zip(("maj_os_ver", "min_os_ver", "maj_img_ver", "min_img_ver", "maj_subsys_ver", "min_subsys_ver"),
                    (rng.getrandbits(16) for _ in range(6))))
    img = dict(size_img=rva, size_hdr=first, checksum=rng.getrandbits(32))
    mem = dict(zip(("size_stack_reserve", "size_stack_commit", "size_heap_reserve", "size_heap_commit"),
                   (rng.getrandbits(40 if wide else 31) for _ in range(4))))
    dll, loader, lnk = rng.getrandbits(16), rng.getrandbits(31), (rng.randrange(256), rng.randrange(256))
    w = "Q" if wide else "I"
    opt = pack("<HBB3III", 0x20b if wide else 0x10b, *lnk, *sizes, entry, code)
    if wide:
        g.use("PE32+")
        g.absent("pe_opt_header/base_data")
    else:
        opt += pack("<I", base)
        g.f("pe_opt_header/base_data", base)
    opt += pack("<%s2I6H4x3I2H" % w, image, *align.values(), *vers.values(), *img.values(), sub, dll)
    opt += pack("<4%s2I" % w, *mem.values(), loader, ndir)
    o = "pe_opt_header/"
    g.fs(o, signature=0x20b if wide else 0x10b, maj_lnk_ver=lnk[0], min_lnk_ver=lnk[1], size_code=sizes[0], size_init_data=sizes[1],
         size_uninit_data=sizes[2], entry_point=entry, base_code=code, image_base=image, **align, **vers, **img, subsystem=sub, dll_flags=dll,
         **mem, loader_flags=loader, nb_directory=ndir)
    g.disp(o + "subsystem", SUBSYSTEM[sub])
    g.desc(o[:-1], "PE optional header: %s, entry point 0x%08x" % (SUBSYSTEM[sub], entry))
    for i in range(ndir):
        d = rsrc if i == 2 else rng.choice(((0, 0), (rng.getrandbits(30), rng.randint(1, 9000))))
        g.fs(o + DIRS[i] + "/", rva=d[0], size=d[1])
        opt += pack("<II", *d)
    assert len(opt) == opt_size
    out += opt + heads
    g.data = out.ljust(first, b"\0") + b"".join(bodies)
    g.size = len(g.data) if bodies else None
    if rng.random() < .2 and bodies:
        g.use("appended data")
        g.data += rbytes(rng, 700)
        g.size = (g.size, g.size) if False else g.size
    text = "Microsoft Windows DLL" if flags >> 13 & 1 else "Microsoft Windows Portable Executable"
    g.description = "%s: %s, %s%s" % (text, CPU[cpu], SUBSYSTEM[sub], ", stripped" if flags >> 9 & 1 else "")
    g.mime = "application/x-dosexec"
    g.m("creation_date", when)
    g.m("format_version", "Portable Executable: " + ("Dynamic-link library (DLL)" if flags >> 13 & 1 else "Windows application"))
    version_meta(g, values or {}, ["CPU: " + CPU[cpu], "Subsystem: " + SUBSYSTEM[sub]])
    return g


@gen("misc")
def ne(rng):
    g = G("ne", "exe")
    new = rng.choice((64, 80, 128, 1024))
    out = msdos_header(rng, g, new, size_div_512=rng.randint(4, 99)).ljust(new, b"\0")
    flags = rng.getrandbits(16) & ~0x5000
    v = dict(link_ver=rng.randrange(9), link_rev=rng.randrange(99), entry_table_ofst=rng.getrandbits(16), entry_table_size=rng.getrandbits(16))
    u = dict(auto_data_seg=rng.randrange(99), local_heap_size=rng.getrandbits(16), stack_size=rng.getrandbits(16), cs_ip=rng.getrandbits(32),
             ss_sp=rng.getrandbits(32), nb_entry_seg_tab=rng.randrange(99), nb_entry_modref_tab=rng.randrange(99), size_nonres_name_tab=rng.randrange(999),
             seg_tab_ofs=rng.getrandbits(16), rsrc_ofs=rng.getrandbits(16), res_name_tab_ofs=rng.getrandbits(16), mod_ref_tab_ofs=rng.getrandbits(16),
             import_tab_ofs=rng.getrandbits(16), non_res_name_tab_ofs=rng.getrandbits(32), nb_mov_ent_pt=rng.getrandbits(16),
             log2_sector_size=rng.randrange(16), nb_rsrc_seg=rng.randrange(9))
    os = rng.choice((1, 4, 0))
    more = rng.choice((0, 2, 4, 8, 0xe))
    fast = (rng.getrandbits(16), rng.getrandbits(16))
    win = rng.choice((0x300, 0x30a))
    h = "ne_header/"
    g.fs(h, signature=b"NE", **v, **u, is_dll=bool(flags & 1), is_win_app=bool(flags & 2), first_seg_code=bool(flags >> 11 & 1),
         link_error=bool(flags >> 13 & 1), is_lib=bool(flags >> 15), unknown_os_format=bool(os & 1), os_windows=bool(os & 4),
         is_win20_prot=bool(more & 2), is_win20_font=bool(more & 4), fast_load=bool(more & 8), fastload_ofs=fast[0], fastload_size=fast[1],
         win_version=win)
    out += b"NE" + pack("<BBHH4xHHHHII8HIHHHBBHH2xH", *v.values(), flags, *u.values(), os, more, *fast, win)
    values = version_values(rng) if rng.random() < .8 else None
    if values is not None:
        g.use("version information")
        out += pad(rbytes(rng, rng.randint(0, 300)).replace(b"VS", b"__"), 4)
        g.at("info", len(out))
        out += version_resource(rng, g, "info/", values, wide=False)
        out += rbytes(rng, rng.randint(0, 99))
    else:
        out += bytes(100)
    g.data = out
    g.description = "New-style Executable (NE) for Microsoft MS Windows 3.x"
    g.m("format_version", "New-style executable" + (": Dynamic-link library (DLL)" if flags & 1 else ": Windows 3.x application" if flags & 2
                                                    else " for Windows 3.x"))
    version_meta(g, values or {}, [])
    return g


# ------------------------------------------------------------------ shortcut (.lnk)

def filetime(rng):
    us = rng.randint(11960006400000000, 13200000000000000) * 10
    return us, datetime.datetime(1601, 1, 1) + datetime.timedelta(microseconds=us // 10)


def dos_date(rng):
    d = datetime.datetime(rng.randint(1980, 2099), rng.randint(1, 12), rng.randint(1, 28), rng.randrange(24), rng.randrange(60), rng.randrange(30) * 2)
    return pack("<HH", (d.year - 1980) << 9 | d.month << 5 | d.day, d.hour << 11 | d.minute << 5 | d.second // 2), d


def guid(rng):
    import uuid
    raw = bytearray(rbytes(rng, 16))
    raw[7] = raw[7] & 15 | rng.choice((1, 3, 4, 5)) << 4
    return bytes(raw), str(uuid.UUID(bytes_le=bytes(raw))).upper()


def cstr(text, wide=False):
    return text.encode("utf-16-le") + b"\0\0" if wide else text.encode("latin-1") + b"\0"


ITEM = {0x1F: "GUID", 0x23: "Drive", 0x2E: "Shell Extension", 0x2F: "Drive", 0x31: "Directory", 0x32: "File", 0x41: "Workgroup", 0x42: "Computer",
        0x47: "Whole Network", 0xC3: "Network Share"}


def item_id(rng, g, p, wide):
    kind = rng.choice(sorted(ITEM) + [0x31, 0x32, 0x99])
    g.f(p + "type", kind)
    g.desc(p[:-1], "Item ID Entry: " + ITEM.get(kind, "Unknown"))
    if kind in (0x1F, 0x2E):
        raw, text = guid(rng)
        g.f(p + "guid", text)
        return bytes([kind, 0x50]) + raw
    if kind in (0x23, 0x2F):
        drive = rng.choice("CDEF") + ":\\"
        g.f(p + "drive", drive)
        return bytes([kind]) + drive.encode().ljust(22, b"\0")
    if kind in (0x31, 0x32):
        name = word(rng, 1, 12)
        raw, when = dos_date(rng)
        size, attr = rng.getrandbits(32), rng.choice((0x10, 0x20, 0x21, 0))
        g.fs(p, size=size, date_time=when, name=name, **{"attribs/directory": attr == 0x10, "attribs/archive": bool(attr & 0x20),
                                                        "attribs/read_only": bool(attr & 1)})
        out = bytes([kind, 0]) + pack("<I", size) + raw + pack("<H", attr) + cstr(name)
        if not wide:
            short = word(rng, 1, 8).upper()
            g.f(p + "name_short", short)
            return out + cstr(short)
        out += bytes((len(out) + 2) % 2)
        a, b = dos_date(rng), dos_date(rng)
        local = word(rng, 1, 9) if rng.random() < .3 else None
        full = word(rng, 1, 20, "abc\xe9\u20ac .") + "x"
        start = len(out)
        tail = pack("<H6x", 0) + a[0] + b[0] + b"\0\0" + pack("<H", 1 if local else 0) + cstr(full, True)
        g.fs(p, creation_date_time=a[1], access_date_time=b[1], unicode_name=full, length_next=1 if local else 0)
        if local:
            tail += cstr(local)
            g.f(p + "localized_name", local)
        else:
            g.absent(p + "localized_name")
        return out + tail + pack("<H", start + 2)
    if kind in (0x41, 0x42, 0x47, 0xC3):
        out = bytes([kind]) + rbytes(rng, 2)
        for k in {0x47: ("name",), 0xC3: ("name", "protocol", "description")}.get(kind, ("name", "protocol")):
            text = word(rng, 0, 12)
            g.f(p + k, text)
            out += cstr(text)
        return out + (b"" if kind == 0x47 else rbytes(rng, 2))
    raw = rbytes(rng, rng.randint(1, 30))
    g.f(p + "raw", raw)
    return bytes([kind]) + raw


def location_info(rng, g, p):
    wide = rng.random() < .4
    local, remote = rng.choice(((True, False), (True, False), (False, True), (True, True)))
    first = 0x24 if wide else 0x1C
    parts = []
    if local:
        label, serial, kind = word(rng, 0, 11), rng.getrandbits(32), rng.randint(1, 6)
        raw = pack("<IIII", 17 + len(label), kind, serial, 16) + cstr(label)
        q = p + "local_volume_table/"
        g.fs(q, length=17 + len(label), volume_type=kind, volume_serial=serial, label_offset=16, drive=label)
        g.disp(q + "volume_serial", "%04X-%04X" % (serial >> 16, serial & 0xffff))
        g.f(q[:-1], label)
        parts.append(("local_info_offset", raw, None))
        path = "C:\\" + word(rng, 1, 30)
        g.f(p + "local_base_pathname", path)
        parts.append(("local_pathname_offset", cstr(path), None))
        if wide:
            path = "C:\\" + word(rng, 1, 30, "ab\xe9\u20ac")
            g.f(p + "local_base_pathname_unicode", path)
            parts.append(("local_pathname_unicode_offset", cstr(path, True), None))
    else:
        g.absent(p + "local_volume_table")
    if remote:
        share = "\\\\" + word(rng, 1, 20)
        q = p + "network_volume_table/"
        g.fs(q, length=21 + len(share), share_name_offset=20, share_name=share)
        g.f(q[:-1], share)
        parts.append(("remote_info_offset", pack("<5I", 21 + len(share), 2, 20, 0, 0x20000) + cstr(share), None))
    last = word(rng, 0, 20)
    g.f(p + "final_pathname", last)
    parts.append(("pathname_offset", cstr(last), None))
    if wide:
        last = word(rng, 0, 20, "ab\xe9\u20ac")
        g.f(p + "final_pathname_unicode", last)
        parts.append(("pathname_unicode_offset", cstr(last, True), None))
    if rng.random() < .5:
        g.use("other order")
        rng.shuffle(parts)
    where, body = {}, b""
    for key, raw, _ in parts:
        if rng.random() < .2:
            body += bytes(rng.randint(1, 5))
        where[key] = first + len(body)
        body += raw
    keys = ["local_info_offset", "local_pathname_offset", "remote_info_offset", "pathname_offset"]
    if wide:
        keys += ["local_pathname_unicode_offset", "pathname_unicode_offset"]
    size = first + len(body)
    for k in keys:
        g.f(p + k, where.get(k, 0))
    g.fs(p, length=size, first_offset_pos=first, on_local_volume=local, on_network_volume=remote)
    return pack("<III", size, first, local | remote << 1) + b"".join(pack("<I", where.get(k, 0)) for k in keys) + body


def extra_info(rng, g, p):
    kind = rng.choice((1, 2, 3, 4, 5, 6, 7, 9))
    sig = 0xA0000000 | kind
    text = {1: "Link Target Information", 2: "Console Window Properties", 3: "Hostname and Other Stuff", 4: "Console Codepage Information",
            5: "Special Folder Info", 6: "DarwinID (Windows Installer ID) Information", 7: "Custom Icon Details"}.get(kind)
    if text:
        g.desc(p[:-1], "Extra Info Entry: " + text)
    if kind in (1, 6, 7):
        name = {1: "target", 6: "darwinID", 7: "icon_path"}[kind]
        a, b = word(rng, 0, 40), word(rng, 0, 40, "ab\xe9\u20ac")
        g.fs(p, **{name: a, name + "_unicode": b})
        body = a.encode().ljust(260, b"\0") + b.encode("utf-16-le").ljust(520, b"\0")
    elif kind == 2:
        c = [rng.randrange(16) for _ in range(4)]
        v = dict(zip(("buffer_width", "buffer_height", "window_width", "window_height", "position_left", "position_top"),
                     (rng.getrandbits(15) for _ in range(6))))
        w = dict(font_number=rng.getrandbits(32), input_buffer_size=rng.getrandbits(32))
        x = dict(font_width=rng.getrandbits(16), font_height=rng.getrandbits(16))
        y = dict(font_family=rng.getrandbits(32), font_weight=rng.getrandbits(32))
        font = word(rng, 0, 31)
        z = dict(cursor_size=rng.randint(0, 100))
        z.update((k, rng.randrange(2)) for k in ("full_screen", "quick_edit", "insert_mode", "auto_position"))
        z.update(history_size=rng.randrange(999), history_count=rng.randrange(99), history_no_dup=rng.randrange(2))
        rgb = [tuple(rbytes(rng, 3)) for _ in range(16)]
        body = bytes([c[0] | c[1] << 4, 0, c[2] | c[3] << 4, 0]) + pack("<6H2I2H2I", *v.values(), *w.values(), *x.values(), *y.values())
        body += font.encode("utf-16-le").ljust(64, b"\0") + pack("<8I", *z.values()) + b"".join(bytes(t) + b"\0" for t in rgb)
        g.fs(p, color_text=c[0], color_bg=c[1], color_popup_text=c[2], color_popup_bg=c[3], font_name_unicode=font, **v, **w, **x, **y, **z)
        g.disp(p + "full_screen", str(bool(z["full_screen"])))
        g.desc(p + "color_bg", "Screen background color index: RGB Color: #%02X%02X%02X" % rgb[c[1]])
        for i, (r, gr, b) in enumerate(rgb):
            g.fs("%scolor[%d]/" % (p, i), red=r, green=gr, blue=b)
    elif kind == 3:
        host = word(rng, 1, 15)
        body = pack("<II16s", 0x58, 0, host.encode()) + rbytes(rng, 64)
        g.fs(p, remaining_length=0x58, hostname=host)
    elif kind == 4:
        page = rng.choice((437, 850, 1252))
        body = pack("<I", page)
        g.f(p + "codepage", page)
    elif kind == 5:
        ident, name = rng.choice(((0, "DESKTOP"), (5, "PERSONAL"), (36, "WINDOWS"), (38, "PROGRAM_FILES"), (46, "COMMON_DOCUMENTS")))
        off = rng.getrandbits(16)
        body = pack("<II", ident, off)
        g.fs(p, special_folder_id=ident, offset=off)
        g.disp(p + "special_folder_id", name)
    else:
        body = rbytes(rng, rng.randint(1, 90))
        g.f(p + "raw", body)
    g.fs(p, length=8 + len(body), signature=sig)
    return pack("<II", 8 + len(body), sig) + body


@gen("misc")
def lnk(rng):
    g = G("lnk", "lnk")
    wide = rng.random() < .6
    flags = rng.getrandbits(18) & ~0x80 | wide << 7
    names = ("has_shell_id target_is_file has_description has_rel_path has_working_dir has_cmd_line_args has_custom_icon has_unicode_names "
             "force_no_linkinfo has_exp_sz run_in_separate has_logo3id has_darwinid runas_user has_exp_icon_sz no_pidl_alias force_unc_name "
             "run_with_shim_layer").split()
    for i, k in enumerate(names):
        g.f(k, bool(flags >> i & 1))
    attr = rng.getrandbits(15) & ~8
    for i, k in enumerate(("read_only", "hidden", "system", None, "directory", "archive", "device", "normal", "temporary", "sparse_file", "reparse_file",
                           "compressed", "offline", "dont_index_content", "encrypted")):
        if k:
            g.f("target_attr/" + k, bool(attr >> i & 1))
    times = [filetime(rng) for _ in range(3)]
    for k, (_, when) in zip(("creation_time", "last_access_time", "modification_time"), times):
        g.f(k, when)
    size, icon, show = rng.getrandbits(32), rng.randrange(99), rng.randrange(11)
    key, text = rng.choice(((0, "None"), (0x35, "5"), (0x41, "A"), (0x5a, "Z"), (0x60, "Numpad 0"), (0x69, "Numpad 9"), (0x70, "F1"), (0x87, "F24"),
                            (0x21, "Page Up"), (0x2e, "Delete"), (0xc0, "`"), (0x90, "Num Lock")))
    mod = rng.randrange(8)
    g.fs("", target_filesize=size, icon_number=icon, show_window=show, hot_key=key, hot_key_shift=bool(mod & 1), hot_key_ctrl=bool(mod & 2),
         hot_key_alt=bool(mod & 4))
    g.disp("hot_key", text)
    g.disp("show_window", ("Hide", "Show Normal", "Show Minimized", "Show Maximized", "Show Normal, not activated", "Show", "Minimize",
                           "Show Minimized, not activated", "Show, not activated", "Restore", "Show Default")[show])
    out = b"\x4C\0\0\0\x01\x14\x02\0\0\0\0\0\xc0\0\0\0\0\0\0\x46" + pack("<II3Q3IBB10x", flags, attr, *[t for t, _ in times], size, icon, show, key, mod)
    g.f("guid", "00021401-0000-0000-C000-000000000046")
    if flags & 1:
        n = rng.randint(0, 5)
        items = b""
        for i in range(n):
            p = "item_idlist/itemid[%d]/" % i
            body = item_id(rng, g, p, wide)
            g.f(p + "length", len(body) + 2)
            g.at(p[:-1], len(out) + 2 + len(items), len(body) + 2)
            items += pack("<H", len(body) + 2) + body
        g.desc("item_idlist/itemid[%d]" % n, "End of Item ID List")
        items += b"\0\0"
        g.f("item_idlist/size", len(items))
        g.count("item_idlist/itemid", n + 1)
        out += pack("<H", len(items)) + items
    else:
        g.absent("item_idlist")
    if flags & 2:
        g.at("file_location_info", len(out))
        out += location_info(rng, g, "file_location_info/")
    else:
        g.absent("file_location_info")
    for i, k in enumerate(("description", "relative_path", "working_dir", "cmd_line_args", "custom_icon"), 2):
        if flags >> i & 1:
            s = word(rng, 0, 40, "abcXYZ\\.:% -" + ("\xe9\u20ac" if wide else ""))
            g.f(k, s)
            g.f(k + "/length", len(s))
            out += pack("<H", len(s)) + s.encode("utf-16-le" if wide else "ascii")
        else:
            g.absent(k)
    n = rng.randint(0, 4)
    for i in range(n):
        p = "extra_info[%d]/" % i
        at = len(out)
        out += extra_info(rng, g, p)
        g.at(p[:-1], at, len(out) - at)
    out += bytes(4)
    g.desc("extra_info[%d]" % n, "End of Extra Info")
    g.count("extra_info", n + 1)
    g.use("Unicode" if wide else "ANSI")
    g.data = out
    return g
