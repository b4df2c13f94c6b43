"""ISO 9660, ext2; ASN.1."""
import datetime

from vlib.gen import ALPHA, G, Texts, gen, pack, rbytes, word

EPOCH = datetime.datetime(1970, 1, 1)


# ------------------------------------------------------------------ ISO 9660

def both16(n):
    return pack("<H", n) + pack(">H", n)


def both32(n):
    return pack("<I", n) + pack(">I", n)


def volume_date(rng):
    """(text of 17 bytes, datetime or None)"""
    if rng.random() < .25:
        return b"0" * 16 + b"\0", None
    when = datetime.datetime(rng.randint(1980, 2029), rng.randint(1, 12), rng.randint(1, 28), rng.randrange(24), rng.randrange(60), rng.randrange(60))
    return when.strftime("%Y%m%d%H%M%S").encode() + b"%02d" % rng.randrange(100) + b"\0", when


@gen("misc")
def iso9660(rng):
    g = G("iso9660", "iso9660")
    t = Texts(rng)
    out = bytes(0x8000)
    # the metadata are read from the first descriptor
    order = ["primary"] + rng.sample(["boot", "extra", "second"], rng.randint(0, 3))
    for i, kind in enumerate(order + ["end"]):
        v = "volume[%d]/" % i
        c = v + "content/"
        g.at(v[:-1], len(out), 2048)
        version = 1
        if kind == "end":
            typ, body = 255, bytes(2041)
            g.disp(v + "type", "Volume Descriptor Set Terminator")
        elif kind == "boot":
            g.use("boot record")
            typ = 0
            name, ident, use = word(rng, 0, 31), word(rng, 0, 31), rbytes(rng, 1979)
            body = pack("31s31s", name.encode(), ident.encode())[:62] + use
            g.fs(c, sys_id=name, boot_id=ident, system_use=use)
            body = name.encode().ljust(31, b"\0") + ident.encode().ljust(31, b"\0") + use
            g.disp(v + "type", "Boot Record")
        elif kind == "extra":
            g.use("other volume descriptor")
            typ, body, version = rng.choice((2, 3)), rbytes(rng, 2041), rng.choice((1, 2))
            g.f(v + "raw_content", body)
        else:
            typ = 1
            g.disp(v + "type", "Primary Volume Descriptor")
            n = dict(space_size=rng.getrandbits(32), set_size=rng.getrandbits(16), seq_num=rng.getrandbits(16), block_size=rng.choice((512, 1024, 2048)),
                     path_table_size=rng.getrandbits(32))
            loc = dict(occu_lpath=rng.getrandbits(32), opt_lpath=rng.getrandbits(32), occu_mpath=rng.getrandbits(32), opt_mpath=rng.getrandbits(32))
            root = rbytes(rng, 34)
            s = {}
            for k, size in (("system_id", 32), ("volume_id", 32), ("vol_set_id", 128), ("publisher", 128), ("data_preparer", 128), ("application", 128),
                            ("copyright", 37), ("abstract", 37), ("biographic", 37)):
                text = t(1, 3) if rng.random() < .8 else ""
                s[k] = (text[:size].strip(), size)
            dates = {k: volume_date(rng) for k in ("creation_ts", "modification_ts", "expiration_ts", "effective_ts")}
            use = word(rng, 0, 500)

            def text(k):
                return s[k][0].encode().ljust(s[k][1])
            body = b"\0" + text("system_id") + text("volume_id") + bytes(8) + both32(n["space_size"]) + bytes(32)
            body += both16(n["set_size"]) + both16(n["seq_num"]) + both16(n["block_size"]) + both32(n["path_table_size"])
            body += pack("<II", loc["occu_lpath"], loc["opt_lpath"]) + pack(">II", loc["occu_mpath"], loc["opt_mpath"]) + root
            body += b"".join(map(text, ("vol_set_id", "publisher", "data_preparer", "application", "copyright", "abstract", "biographic")))
            body += b"".join(raw for raw, _ in dates.values()) + b"\1\0" + use.encode().ljust(512, rng.choice((b"\0", b" "))) + bytes(653)
            g.fs(c, **n, **loc, root=root, struct_ver=1, app_use=use, **{k: x for k, (x, _) in s.items()})
            for k, (raw, _) in dates.items():
                g.f(c + k, raw.decode())
            if i == 0:
                g.m("title", *[x for x in (s["volume_id"][0], s["vol_set_id"][0]) if x])
                g.m("author", *[x for x in (s["publisher"][0], s["data_preparer"][0]) if x])
                g.m("producer", *[x for x in (s["application"][0],) if x])
                g.m("copyright", *[x for x in (s["copyright"][0],) if x])
                g.m("creation_date", *[x for x in (dates["creation_ts"][1],) if x])
                g.m("last_modification", *[x for x in (dates["modification_ts"][1],) if x])
        assert len(body) == 2041, (kind, len(body))
        g.fs(v, type=typ, signature=b"CD001", version=version)
        out += bytes([typ]) + b"CD001" + bytes([version]) + body
    g.count("volume", len(order) + 1)
    if rng.random() < .7:
        data = rbytes(rng, rng.randint(1, 3000))
        g.at("end", len(out), len(data))
        out += data
    g.data = out
    return g


# ------------------------------------------------------------------ ASN.1

def der_len(n):
    if n < 128:
        return bytes([n])
    raw = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes([128 | len(raw)]) + raw


def base128(n):
    out = [n & 127]
    while n > 127:
        n >>= 7
        out.append(n & 127 | 128)
    return bytes(reversed(out))


STRINGS = {12: ("utf8_str", "utf-8"), 18: ("num_str", "ascii"), 19: ("print_str", "ascii"), 20: ("teletex_str", "ascii"), 22: ("ia5_str", "ascii"),
           26: ("visible_str", "ascii"), 27: ("general_str", "ascii"), 28: ("universal_str", "utf-32-be"), 30: ("bmp_str", "utf-16-be")}


def asn1_object(rng, depth, big):
    """(field name, encoded object, function(g, path, offset) which records its facts)"""
    kind = rng.choice(("seq", "set", "seq", "context")) if depth else rng.choice(
        ("bool", "int", "int", "bit", "octet", "null", "oid", "oid", "string", "string", "string", "utc", "enum", "raw", "general"))
    if kind in ("seq", "set", "context"):
        subs = [asn1_object(rng, depth - 1 if rng.random() < .7 else 0, big) for _ in range(rng.randint(0 if depth < 3 else 1, 5))]
        body = b"".join(s[1] for s in subs)
        num = rng.randrange(31)
        tag = {"seq": 0x30, "set": 0x31, "context": rng.choice((0xa0, 0x60, 0xe0)) | num}[kind]
        head = bytes([tag]) + der_len(len(body))

        def facts(g, p, at):
            g.at(p[:-1], at, len(head) + len(body))
            g.fs(p, form=True, type=tag & 31, size=len(body), **{"class": tag >> 6})
            g.disp(p + "class", ("universal", "application", "context", "private")[tag >> 6])
            g.desc(p[:-1], {"seq": "Sequence", "set": "Set"}.get(kind, "constructed object type %d" % num))
            here, seen = at + len(head), {}
            for name, raw, fn in subs:
                k = seen.setdefault(name, 0)
                seen[name] += 1
                fn(g, "%s%s[%d]/" % (p, name, k), here)
                here += len(raw)
        return ("set" if kind == "set" else "seq"), head + body, facts
    display = desc = None
    field, value = "value", None
    if kind == "bool":
        tag, name, text = 1, "boolean", "Boolean"
        value = rng.choice((0, 255))
        body = bytes([value])
        display = str(bool(value))
    elif kind in ("int", "enum"):
        tag, name, text = (2, "integer", "Integer") if kind == "int" else (10, "enum", "Enumerated")
        value = rng.choice((0, -1, 127, 128, -128, -129, rng.getrandbits(31), -rng.getrandbits(60), rng.getrandbits(1023)))
        body = value.to_bytes((value if value >= 0 else ~value).bit_length() // 8 + 1, "big", signed=True)
    elif kind == "bit":
        tag, name, text = 3, "bit_str", "Bit string"
        value = rbytes(rng, rng.randint(1, big)) if rng.random() < .9 else None
        unused = rng.randrange(8) if value else 0
        body = bytes([unused]) + (value or b"")
    elif kind == "octet":
        tag, name, text = 4, "octet_str", "Octet string"
        value = rbytes(rng, rng.randint(1, big)) if rng.random() < .9 else None
        body = value or b""
    elif kind == "null":
        tag, name, text, body = 5, "null", "NULL (empty, None)", b""
    elif kind == "oid":
        tag, name = 6, "obj_id"
        first = rng.choice((0, 1, 2, 2))
        second = rng.randrange(40) if first < 2 else rng.choice((5, 16, 23, 39, 40, 47, 48, 100, 999))
        rest = [rng.choice((0, 1, 127, 128, 840, 113549, rng.getrandbits(32), rng.getrandbits(49))) for _ in range(rng.randint(0, 9))]
        body = base128(first * 40 + second) + b"".join(map(base128, rest))
        text = "Object identifier: " + ".".join(map(str, [first, second] + rest))
    elif kind == "string":
        tag = rng.choice(sorted(STRINGS))
        name, charset = STRINGS[tag]
        chars = "0123456789 " if tag == 18 else ALPHA + (" \xe9\u20ac" if tag in (12, 28, 30) else " -'()+,./:=?")
        value = word(rng, 0, rng.choice((10, 200)), chars)
        body = value.encode(charset)
        value = value or None
        text = {12: "Printable string", 18: "Numeric string", 20: "Teletex (T61, None) string", 26: "Visible (ISO64, None) string",
                27: "General string", 28: "Universal string", 30: "BMP string"}.get(tag)
        if tag in (19, 22):
            text = None if not value or len(value) > 40 else ("Printable string: \"%s\"" if tag == 19 else "IA5 string: \"%s\"") % value
    elif kind in ("utc", "general"):
        when = datetime.datetime(rng.randint(1950, 2049), rng.randint(1, 12), rng.randint(1, 28), rng.randrange(24), rng.randrange(60), rng.randrange(60))
        value = when.strftime("%y%m%d%H%M%SZ" if kind == "utc" else "%Y%m%d%H%M%SZ")
        body = value.encode()
        tag, name, text = (23, "utc_time", "UTC time: %s" % when) if kind == "utc" else (24, "general_time", "Generalized time")
    else:
        num = rng.randrange(31)
        tag, name = rng.choice((0x80, 0x40, 0xc0)) | num, "raw"
        value = word(rng, 1, 30)
        body = value.encode()
        text = "%s object type %d" % (("", "application", "context", "private")[tag >> 6], num)
    head = bytes([tag]) + der_len(len(body))

    def leaf(g, p, at):
        g.at(p[:-1], at, len(head) + len(body))
        g.fs(p, form=False, type=tag & 31, size=len(body), **{"class": tag >> 6})
        if text is not None:
            g.desc(p[:-1], text)
        if value is not None:
            g.f(p + field, value)
            g.at(p + field, at + len(head) + (kind == "bit"))
        if kind == "bit":
            g.f(p + "padding_size", body[0])
        if display:
            g.disp(p + field, display)
        g.variant.append(name)
    return name, head + body, leaf


@gen("misc")
def asn1(rng):
    g = G("asn1", "asn1")
    while True:
        name, data, facts = asn1_object(rng, rng.randint(1, 4), rng.choice((20, 300, 70000)))
        if len(data) > 16:
            break
    g.variant = []
    g.data = data
    facts(g, name + "[0]/", 0)
    g.variant = sorted(set(g.variant))[:3]
    return g
