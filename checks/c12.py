"""C12: metadata extraction is total; values are typed, bounded and unique.

Monitors: every metadata object obtained from valid, damaged and forced trees
is inspected against an independent table of the documented keys (type, range,
header, priority); its text and dictionary exports at every priority are
recomputed from the recorded values. The Metadata/Data API is driven by random
histories against the list of the values which were offered."""
import itertools
import locale
import math
import signal
from datetime import date, datetime, timedelta, timezone

from checks.c04 import CPU, PER_BYTE, STEPS, CpuLimit, counted, on_cpu
from vlib import check, corpus, tree
from vlib.check import Result, rng_for
from vlib.env import SEED
from hachoir.core.language import Language
from hachoir.core.tools import (humanBitRate, humanBitSize, humanDatetime, humanDuration, humanFilesize, humanFrequency,
                                makeUnicode, normalizeNewline)
from hachoir.metadata import config, extractMetadata
from hachoir.metadata.metadata import Metadata, MultipleMetadata, RootMetadata, extractors
from hachoir.metadata.setter import parseDatetime

PID = "C12"
DATE = "date"
# key: (priority, header, types, range)
DOC = {
    "title": (100, "Title", (str,), None),
    "artist": (101, "Artist", (str,), None),
    "author": (102, "Author", (str,), None),
    "music_composer": (103, "Music composer", (str,), None),
    "album": (200, "Album", (str,), None),
    "duration": (201, "Duration", (timedelta,), (timedelta(milliseconds=1), timedelta(days=365))),
    "nb_page": (202, "Nb page", None, (1, 20000)),
    "music_genre": (203, "Music genre", (str,), None),
    "language": (204, "Language", (Language,), None),
    "track_number": (205, "Track number", (int,), (1, 999)),
    "track_total": (206, "Track total", (int,), (1, 999)),
    "organization": (210, "Organization", (str,), None),
    "version": (220, "Version", None, None),
    "width": (301, "Image width", (int,), (1, 20000)),
    "height": (302, "Image height", (int,), (1, 20000)),
    "nb_channel": (303, "Channel", (int,), (1, 8)),
    "sample_rate": (304, "Sample rate", (int, float), (1000, 192000)),
    "bits_per_sample": (305, "Bits/sample", (int,), (1, 64)),
    "image_orientation": (306, "Image orientation", None, None),
    "nb_colors": (307, "Number of colors", (int,), (1, 16777216)),
    "bits_per_pixel": (308, "Bits/pixel", (int,), (1, 256)),
    "filename": (309, "File name", (str,), None),
    "file_size": (310, "File size", (int,), None),
    "pixel_format": (311, "Pixel format", None, None),
    "compr_size": (312, "Compressed file size", (int,), None),
    "compr_rate": (313, "Compression rate", (int, float), (0.001, 1000.0)),
    "width_dpi": (320, "Image DPI width", (int,), (1, 10000)),
    "height_dpi": (321, "Image DPI height", (int,), (1, 10000)),
    "file_attr": (400, "File attributes", None, None),
    "file_type": (401, "File type", None, None),
    "subtitle_author": (402, "Subtitle author", (str,), None),
    "creation_date": (500, "Creation date", (datetime, date), DATE),
    "last_modification": (501, "Last modification", (datetime, date), DATE),
    "latitude": (510, "Latitude", (float,), None),
    "longitude": (511, "Longitude", (float,), None),
    "altitude": (512, "Altitude", (float,), None),
    "location": (530, "Location", (str,), None),
    "city": (531, "City", (str,), None),
    "country": (532, "Country", (str,), None),
    "charset": (540, "Charset", (str,), None),
    "font_weight": (550, "Font weight", None, None),
    "camera_aperture": (520, "Camera aperture", None, None),
    "camera_focal": (521, "Camera focal", None, None),
    "camera_exposure": (522, "Camera exposure", None, None),
    "camera_brightness": (530, "Camera brightness", None, None),
    "camera_model": (531, "Camera model", (str,), None),
    "camera_manufacturer": (532, "Camera manufacturer", (str,), None),
    "compression": (600, "Compression", None, None),
    "copyright": (601, "Copyright", (str,), None),
    "url": (602, "URL", (str,), None),
    "frame_rate": (603, "Frame rate", (int, float), (1, 150)),
    "bit_rate": (604, "Bit rate", (int, float), (1, 524288000)),
    "aspect_ratio": (604, "Aspect ratio", (int, float), None),
    "thumbnail_size": (604, "Thumbnail size", (int, float), None),
    "iso_speed_ratings": (800, "ISO speed rating", None, None),
    "exif_version": (801, "EXIF version", None, None),
    "date_time_original": (802, "Date-time original", (datetime, date), DATE),
    "date_time_digitized": (803, "Date-time digitized", (datetime, date), DATE),
    "compressed_bits_per_pixel": (804, "Compressed bits per pixel", (int, float), None),
    "shutter_speed_value": (805, "Shutter speed", (int, float), None),
    "aperture_value": (806, "Aperture", None, None),
    "exposure_bias_value": (807, "Exposure bias", None, None),
    "focal_length": (808, "Focal length", None, None),
    "flashpix_version": (809, "Flashpix version", None, None),
    "focal_plane_x_resolution": (810, "Focal plane width", None, None),
    "focal_plane_y_resolution": (811, "Focal plane height", (float,), None),
    "focal_length_in_35mm_film": (812, "Focal length in 35mm film", None, None),
    "os": (900, "OS", (str,), None),
    "producer": (901, "Producer", (str,), None),
    "comment": (902, "Comment", (str,), None),
    "format_version": (950, "Format version", (str,), None),
    "mime_type": (951, "MIME type", (str,), None),
    "endian": (952, "Endianness", (str,), None),
}
MARK = "(...)"
DISPLAY = {
    "duration": humanDuration, "sample_rate": humanFrequency, "bits_per_sample": humanBitSize, "bit_rate": humanBitRate,
    "nb_channel": lambda v: {1: "mono", 2: "stereo"}.get(v, str(v)), "compr_rate": lambda v: "%.1fx" % v,
    "altitude": lambda v: "%.1f meters" % v, "frame_rate": lambda v: "%.1f fps" % v}
DISPLAY.update(dict.fromkeys(("width", "height"), lambda v: "%s pixels" % v))
DISPLAY.update(dict.fromkeys(("width_dpi", "height_dpi"), lambda v: "%s DPI" % v))
DISPLAY.update(dict.fromkeys(("file_size", "compr_size", "thumbnail_size"), humanFilesize))
DISPLAY.update(dict.fromkeys(("creation_date", "last_modification", "date_time_original", "date_time_digitized"),
                             humanDatetime))
LEVELS = (0, 1, 99, 100, 101, 105, 199, 200, 204, 299, 302, 399, 499, 500, 599, 604, 699, 799, 899, 902, 949, 999, 2000,
          None)


def in_range(value, rng):
    if rng is None:
        return True
    if rng == DATE:
        return 1850 <= value.year <= 2030 if isinstance(value, date) else True
    low, high = rng
    if isinstance(value, timedelta) == isinstance(low, timedelta) and isinstance(value, (int, float, timedelta)):
        return low <= value <= high
    return True


def check_values(res, meta, label, maxlen):
    """Invariants of the recorded values."""
    for data in meta:
        doc = DOC.get(data.key)
        if doc is not None:
            res.expect((data.priority, data.description) == doc[:2], "documented item",
                       lambda: "%s: %s is %r, documented %r" % (label, data.key, (data.priority, data.description), doc))
        texts = []
        for i, item in enumerate(data.values):
            v = item.value
            where = "%s: %s=%.80r" % (label, data.key, v)
            res.ev("values")
            res.expect(v is not None and not isinstance(v, bytes) and v != "", "empty", lambda: where)
            res.expect(isinstance(item.text, str), "text type", lambda: "%s: text %r" % (where, item.text))
            if doc:
                if doc[2]:
                    res.expect(isinstance(v, doc[2]), "type:" + data.key, lambda: "%s is %s" % (where, type(v).__name__))
                if isinstance(v, (date, timedelta, int, float)):
                    res.expect(in_range(v, doc[3]), "range:" + data.key, lambda: "%s is not in %s" % (where, doc[3]))
            if isinstance(v, str):
                if maxlen:
                    res.expect(len(v) <= maxlen or (len(v) == maxlen + len(MARK) and v.endswith(MARK)), "length",
                               lambda: "%s: %d characters, limit %d" % (where, len(v), maxlen))
                if not config.RAW_OUTPUT:
                    res.expect(not v[0] in " \t\v\n\r\0", "strip", lambda: where)
                res.expect("\r" not in v and "\n\n" not in v, "newline", lambda: where)
                for u in texts:
                    res.expect(not u.startswith(v) and not v.startswith(u), "truncated copy",
                               lambda: "%s and %r" % (where, u))
                texts.append(v)
            for other in data.values[:i]:
                res.expect(not (v == other.value), "repeated", lambda: where)
        n = len(data.values)
        res.expect(meta.has(data.key) == (n > 0) and meta.getValues(data.key) == [it.value for it in data.values]
                   or any(v != v for v in meta.getValues(data.key)),
                   "getValues", lambda: "%s: %s" % (label, data.key))
        for i, item in enumerate(data.values):
            res.expect(meta.get(data.key, index=i) is item.value and meta.getText(data.key, index=i) is item.text,
                       "get", lambda: "%s: %s %d" % (label, data.key, i))
        res.expect(meta.getText(data.key, "none", n) == "none" and meta.get(data.key, "none", n) == "none",
                   "get missing", lambda: "%s: %s" % (label, data.key))


def lines_of(meta, priority, human):
    """Expected (header, text) of one metadata object."""
    top = 999 if priority is None else min(max(priority, 100), 999)
    items = [(DOC.get(d.key, (d.priority,))[0], i, d) for i, d in enumerate(meta)]
    out = []
    for prio, i, d in sorted(items, key=lambda x: x[:2]):
        if prio <= top:
            for item in d.values:
                out.append((d.description if human else d.key, item.text if human else makeUnicode(item.value)))
    return out


def groups_of(meta):
    if isinstance(meta, MultipleMetadata):
        return list(meta._MultipleMetadata__groups.items())
    return []


def expected_text(meta, priority, human, prefix, title=None):
    text = []
    own = lines_of(meta, priority, human)
    if own:
        text.append("%s:" % (title or meta.header))
        text += ["%s%s: %s" % (prefix, a, b) for a, b in own]
    for key, group in groups_of(meta):
        text += expected_text(group, priority, human, prefix, None if human else key) or []
    return text or None


def check_exports(res, rng, meta, label, levels):
    for priority in levels:
        human = rng.random() < .6
        prefix = rng.choice(("- ", "", "  * "))
        want = expected_text(meta, priority, human, prefix)
        for again in range(2):
            got = meta.exportPlaintext(priority=priority, human=human, line_prefix=prefix)
            res.expect(got == want, "plaintext",
                       lambda: "%s: priority %s human %s: exported %.300r expected %.300r" % (label, priority, human, got, want))
        got = meta.exportDictionary(priority=priority, human=human) or {}
        exp = []
        for key, m in [(None, meta)] + groups_of(meta):
            own = {}
            for a, b in lines_of(m, priority, human):
                # the dictionary holds the last value of each item
                own[a] = b
            if own:
                exp.append((key if key and not human else m.header, own))
        have = [(t, d) for t, d in got.items() if d]
        res.expect([d for t, d in have] == [d for t, d in exp], "dictionary",
                   lambda: "%s: priority %s human %s: exported %.400r expected %.400r" % (label, priority, human, have, exp))
        for (t, d), (u, e) in zip(have, exp):
            res.expect(t == u or t.startswith(u), "dictionary title", lambda: "%s: %r for %r" % (label, t, u))
        res.ev("exports", 3)
        if len(exp) > 1:
            res.ev("exports with groups")
    if rng.random() < .3:
        w = expected_text(meta, None, True, "- ")
        if w:
            res.expect(str(meta) == "\n".join(w), "str", lambda: "%s: %r" % (label, str(meta)[:200]))


def signature(meta):
    return tuple((d.key, i.text, repr(i.value)) for d in meta for i in d.values) + tuple(
        (k, signature(g)) for k, g in groups_of(meta))


def settings(rng):
    """A string limit and an output mode; returns the limit."""
    config.MAX_STR_LENGTH = rng.choice((300, 300, 300, 0, 1, 5, 20, 80, 1000))
    config.RAW_OUTPUT = rng.random() < .15
    return config.MAX_STR_LENGTH


def extract_all(res, rng, opener, label, forced, qualities):
    config.MAX_STR_LENGTH, config.RAW_OUTPUT = 300, False
    try:
        root = opener()
    except Exception:
        # C04 decides whether it may
        res.ev("no tree")
        return
    if root is None:
        res.ev("no tree")
        return
    name = type(root).__name__
    maxlen = settings(rng)
    for q in qualities:
        before = locale.setlocale(locale.LC_ALL)
        try:
            meta = extractMetadata(root, q)
        except Exception as err:
            res.fail("extract:%s:%s" % (type(err).__name__, tree.where(err)),
                     "%s: extractMetadata(%s, %s) raises %r" % (label, name, q, err))
            return
        res.expect(locale.setlocale(locale.LC_ALL) == before, "locale",
                   "%s: the locale of the process changed from %s" % (label, before))
        res.evals += 1
        if type(root) not in extractors:
            res.expect(meta is None, "no extractor", lambda: "%s: %r from a parser without extractor" % (label, meta))
            res.ev("parsers without extractor")
            return
        res.expect(meta is None or isinstance(meta, RootMetadata), "result", lambda: "%s: returns %r" % (label, meta))
        if meta is None:
            res.ev("no metadata")
            continue
        res.ev("extractions")
        res.expect(0.0 <= meta.quality <= 1.0, "quality", lambda: "%s: quality %r" % (label, meta.quality))
        check_values(res, meta, label, maxlen)
        n = 0
        for key, g in groups_of(meta):
            n += 1
            check_values(res, g, "%s group %s" % (label, key), maxlen)
            if n > 400:
                break
        if meta:
            res.expect(meta.getValues("mime_type")[-1:] == [root.mime_type.strip(" \t\v\n\r\0")]
                       or maxlen and len(root.mime_type) > maxlen, "mime",
                       lambda: "%s: MIME type %r of %r" % (label, meta.getValues("mime_type"), root.mime_type))
            res.seen(name, sorted(d.key for d in meta if d.values), min(n, 5))
            res.ev("metadata of " + name) if not forced else None
        levels = rng.sample(LEVELS, 4) if n < 50 else rng.sample(LEVELS, 1)
        try:
            check_exports(res, rng, meta, label, levels)
        except Exception as err:
            res.fail("export:%s:%s" % (type(err).__name__, tree.where(err)), "%s: exports raise %r" % (label, err))
        if len(res.samples) < 2 and meta:
            res.samples.append("%s -> %s" % (label[:90], (str(meta) or "").replace("\n", " ")[:160]))
    config.MAX_STR_LENGTH, config.RAW_OUTPUT = 300, False


def guarded(res, key, opener, label, size, forced, qualities):
    signal.signal(signal.SIGVTALRM, on_cpu)
    sub = Result()
    slow = False
    try:
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU, 1.0)
        try:
            extract_all(sub, rng_for(key), opener, label, forced, qualities)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except CpuLimit:
        slow = True
    if slow:
        sub = Result()
        budget = (STEPS + PER_BYTE * size) * len(qualities)
        ok, steps = counted(lambda: extract_all(sub, rng_for(key), opener, label, forced, qualities), budget)
        res.ev("slow inputs")
        if not ok:
            res.fail("work:" + label.split(" ")[0], "%s: more than %d steps for %d bytes" % (label, budget, size))
            sub.viol = []
    res.evals += sub.evals
    res.sigs += sub.sigs
    res.viol += sub.viol
    res.samples += sub.samples[:2 - len(res.samples)]
    for k, v in sub.events.items():
        res.ev(k, v)


# --- the API

def some_value(rng, key):
    kind = DOC[key][2]
    r = rng.random()
    if r < .02:
        return rng.choice((float("nan"), float("inf"))) if DOC[key][3] else 1.5
    if r < .12:
        return rng.choice((None, "", " \0", b"", b"caf\xe9", 0, -1, 1, 3.5, "12", "3/10", "x/y",
                           "/", "fre", "eng", "zzz", datetime(2000, 2, 3), timedelta(0), timedelta(seconds=5), [], {}, date(1849, 12, 31)))
    if kind and str in kind or kind is None and r < .7:
        base = rng.choice(("Long title of a thing", "abc", "x", "caf\xe9 \u20ac", "a\r\nb\r\rc", "tab\tend", "Z" * 299, "Z" * 300, "Z" * 301,
                           "Z" * 400, "q" * 25, " padded ", "line\n\n\nline", "(...)"))
        s = base[:rng.randint(1, len(base))] if rng.random() < .6 else base
        if rng.random() < .2:
            s = s.encode("latin-1", "replace")
        return (s, "text of it") if rng.random() < .05 else s
    if kind and timedelta in kind:
        return rng.choice((timedelta(milliseconds=rng.choice((0, 1, 5, 10 ** 6))), timedelta(days=rng.choice((1, 364, 365, 366, -1))),
                           timedelta(microseconds=999), timedelta(days=365, microseconds=1)))
    if kind and datetime in kind:
        return rng.choice((datetime(rng.choice((1849, 1850, 1999, 2030, 2031)), rng.choice((1, 12)), rng.choice((1, 31)), rng.choice((0, 23)), 59),
                           date(rng.choice((1849, 1850, 2030, 2031)), 12, 31), "2004-01-02", "2004-13-02", "nonsense",
                           datetime(2001, 1, 1, tzinfo=timezone.utc)))
    if kind and Language in kind:
        return rng.choice(("fre", "eng", "ger", "xx", 5))
    rg = DOC[key][3] or (0, 1 << 32)
    low, high = rg
    v = rng.choice((low, high, low - 1, high + 1, (low + high) // 2, rng.uniform(low, high), int(rng.uniform(low, high)), 0, -5))
    return (v, "explained") if rng.random() < .1 else v


def accepted(key, value):
    """The form under which an offered value must be found, or None when it is
    (or may be) refused."""
    text = None
    if isinstance(value, tuple):
        value, text = value
    types, rg = DOC[key][2:]
    if key in ("language", "track_number", "track_total", "creation_date", "last_modification", "date_time_original",
               "date_time_digitized"):
        if key == "language":
            if value in ("fre", "eng", "ger"):
                return Language(value)
            return None
        if key.startswith("track"):
            if isinstance(value, int) and not isinstance(value, bool) and in_range(value, rg):
                return value
            return 12 if value == "12" else 3 if value == "3/10" and key == "track_number" else None
        if value == "2004-01-02":
            return date(2004, 1, 2)
        return value if isinstance(value, date) and in_range(value, rg) else None
    if value is None:
        return None
    if isinstance(value, bytes):
        value = value.decode("latin-1")
    if isinstance(value, str):
        value = value.strip(" \t\v\n\r\0")
        if not value or types and str not in types:
            return None
        value = normalizeNewline(value)
        if config.MAX_STR_LENGTH and len(value) > config.MAX_STR_LENGTH:
            value = value[:config.MAX_STR_LENGTH] + MARK
        return value
    if types and not isinstance(value, types):
        return None
    return value if in_range(value, rg) else None


def api_case(res, rng):
    config.MAX_STR_LENGTH = rng.choice((300, 300, 0, 3, 10))
    config.RAW_OUTPUT = False
    multi = rng.random() < .4
    meta = (MultipleMetadata if multi else RootMetadata)(rng.choice((-1, 0, .5, 1, 2)))
    objs = [(meta, {})]
    offered = {}
    log = []
    titles = ("Video", "Audio #1", "File \"x\"")
    for step in range(rng.randint(1, 40)):
        if multi and rng.random() < .15:
            g = Metadata(meta)
            off = {}
            for key in rng.sample(sorted(DOC), rng.randint(0, 4)):
                v = some_value(rng, key)
                try:
                    setattr(g, key, v)
                except Exception as err:
                    res.fail("api:%s:%s" % (type(err).__name__, tree.where(err)), "group.%s = %r raises %r" % (key, v, err))
                    continue
                off.setdefault(key, []).append(v)
            key = rng.choice(("g[]", "g[]", "k%d" % step))
            filled = bool(g)
            ok = meta.addGroup(key, g, rng.choice(titles + (None,)))
            res.expect(ok == filled, "addGroup", lambda: "addGroup(%r) of a group with values %s returns %s" % (key, filled, ok))
            if ok:
                objs.append((g, off))
            continue
        key = rng.choice(sorted(DOC)) if rng.random() < .5 or not offered else rng.choice(sorted(offered))
        v = some_value(rng, key)
        log.append((key, v))
        try:
            setattr(meta, key, v)
        except Exception as err:
            res.fail("api:%s:%s" % (type(err).__name__, tree.where(err)), "meta.%s = %r raises %r" % (key, v, err))
            continue
        objs[0][1].setdefault(key, []).append(v)
        offered[key] = 1
    label = "api %.400r" % log
    for m, off in objs:
        check_values(res, m, label, config.MAX_STR_LENGTH)
        for key, values in off.items():
            have = m.getValues(key)
            want = [accepted(key, v) for v in values]
            for v, w in zip(values, want):
                if w is None:
                    continue
                if isinstance(w, str):
                    ok = any(isinstance(h, str) and h.startswith(w) for h in have)
                    # a longer value which was cut
                    ok = ok or any(isinstance(h, str) and w.endswith(MARK) and h == w for h in have)
                else:
                    ok = any(h == w for h in have)
                res.expect(ok, "lost:" + ("text" if isinstance(w, str) else type(w).__name__),
                           lambda: "%s: %s offered %.60r, recorded %.200r" % (label[:100], key, v, have))
                res.ev("offered values accepted")
            if key == "track_total" and not all(w is not None for w in want):
                continue
            for h in have:
                if key == "track_total" and h not in want:
                    # may come from track_number
                    continue
                res.expect(any(type(w) is type(h) and w == h for w in want), "invented",
                           lambda: "%s: %s recorded %.60r, offered %.200r" % (label[:100], key, h, values))
            if key.startswith("track"):
                continue
            for item in m.getItems(key):
                # the text of the value, or the text which was given with it
                v = item.value
                texts = [o[1] for o, w in zip(values, want) if isinstance(o, tuple) and type(w) is type(v) and w == v]
                if any(not isinstance(o, tuple) and type(w) is type(v) and w == v for o, w in zip(values, want)):
                    texts.append(v if isinstance(v, str) else DISPLAY.get(key, makeUnicode)(v))
                res.expect(not texts or item.text in texts, "text",
                           lambda: "%s: %s=%.60r has the text %.100r instead of %.100r" % (
                               label[:100], key, v, item.text, texts))
                res.ev("texts")
        for key in DOC:
            try:
                m.has(key)
            except ValueError as err:
                res.fail("unknown key", "%s: %s" % (key, err))
                continue
            if key not in off and not (key == "track_total" and "track_number" in off):
                res.expect(not m.has(key), "appeared", lambda: "%s: %s = %r" % (label[:100], key, m.getValues(key)))
    if multi:
        res.expect([g for k, g in groups_of(meta)] == [m for m, off in objs[1:]], "groups", lambda: label[:200])
        for k, g in groups_of(meta):
            res.expect(k in meta and meta[k] is g, "group lookup", lambda: "%s: %s" % (label[:100], k))
        res.expect(list(meta.iterGroups()) == [g for k, g in groups_of(meta)], "iterGroups", lambda: label[:200])
    try:
        setattr(meta, "nosuch", 1)
        res.fail("unknown key", "an unknown key is accepted")
    except KeyError:
        pass
    check_exports(res, rng, meta, label[:200], rng.sample(LEVELS, 5))
    res.seen("api", [k for k, v in log], len(objs))
    res.ev("api histories")
    config.MAX_STR_LENGTH = 300


DAYS = ("Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun")
MONTHS = ("January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November",
          "December")


def date_case(res, rng):
    """Every documented form of a date text."""
    before = locale.setlocale(locale.LC_ALL)
    for _ in range(30):
        y, mo, d = rng.choice((1850, 1899, 1970, 1999, 2000, 2004, 2023, 2030)), rng.randint(1, 12), rng.randint(1, 28)
        h, mi, s = rng.randrange(24), rng.randrange(60), rng.randrange(60)
        full = datetime(y, mo, d, h, mi, s)
        day, month = DAYS[full.weekday()], MONTHS[mo - 1]
        sep, colon = rng.choice("-/."), rng.choice((":", ".", "-"))
        tz = rng.choice((0, 0, 1, 2, 5, 11, -1, -5, -11))
        forms = [
            ("%04d" % y, date(y, 1, 1)),
            (sep.join(("%04d" % y, "%02d" % mo, "%02d" % d)), date(y, mo, d)),
            ("%04d%s%02d%s%02d %02d%s%02d%s%02d" % (y, sep, mo, sep, d, h, colon, mi, colon, s), full),
            ("%02d%s%02d%s%04d %02d:%02d:%02d" % (mo, sep, d, sep, y, h, mi, s), full),
            ("%s %s %02d %02d:%02d:%02d %d" % (day, month[:3], d, h, mi, s, y), full),
            ("%s, %02d %s %d %02d:%02d:%02d" % (day, d, month[:3], y, h, mi, s), full),
            ("%s, %02d %s %d %02d:%02d:%02d %s%02d00" % (day, d, month[:3], y, h, mi, s, "-" if tz < 0 else "+", abs(tz)),
             full.replace(tzinfo=timezone(timedelta(hours=tz)))),
            ("%s %d" % (month, y), date(y, mo, 1)),
        ]
        for text, want in forms:
            if rng.random() < .2:
                text = rng.choice((" ", "\t", "")) + text + rng.choice((" ", "\n", ""))
            try:
                got = parseDatetime(text)
            except Exception as err:
                got = err
            if isinstance(got, tuple):
                got = got[0]
            same = type(got) is type(want) and got == want
            if isinstance(want, datetime) and same:
                same = got.utcoffset() == want.utcoffset()
            res.expect(same, "date text", lambda: "parseDatetime(%r) = %r, expected %r" % (text, got, want))
            res.ev("date texts")
        bad = rng.choice(("", "x", "2004-02-30", "2004-00-10", "99", "13-32-2004 25:61:99", "Foo 2007", "2004-01-02 25:00:00",
                          "Thu, 99 Jul 2007 09:03:57", "- - -"))
        try:
            got = parseDatetime(bad)
            res.expect(got is None, "bad date", lambda: "parseDatetime(%r) = %r" % (bad, got))
        except Exception as err:
            res.fail("bad date raises", "parseDatetime(%r) raises %r" % (bad, err))
    res.expect(locale.setlocale(locale.LC_ALL) == before, "locale", lambda: "parseDatetime() changes the locale of the process from %s to %s" % (
        before, locale.setlocale(locale.LC_ALL)))
    res.seen("dates", y, mo, tz)


def case(arg):
    kind, n = arg
    rng = rng_for(PID, SEED, kind, n)
    res = Result()
    for name in ("C.UTF-8", "en_US.UTF-8", "C"):
        try:
            locale.setlocale(locale.LC_ALL, name)
            break
        except locale.Error:
            pass
    if kind == "api":
        for _ in range(6):
            api_case(res, rng)
    elif kind == "dates":
        date_case(res, rng)
    elif kind == "file":
        name = corpus.names()[n % len(corpus.names())]
        data = corpus.load(name)
        sigs = []
        for q in (0.0, .25, .5, .75, 1.0, -3, 7):
            guarded(res, (PID, SEED, arg, q), lambda: tree.guess(data, name), "%s quality %s" % (name, q), len(data), False, [q])
        # twice the same
        for _ in range(2):
            root = tree.guess(data, name)
            m = extractMetadata(root, .5) if root is not None else None
            sigs.append(signature(m) if m else None)
        res.expect(sigs[0] == sigs[1], "stable", lambda: "%s: two extractions differ" % name)
    else:
        for i in range(4):
            c = tree.hostile_case(rng, cap=rng.choice((49152, 400000)), forced=.3 if kind == "forced" else .02)
            if kind == "forced" and not c["force"]:
                c["force"] = rng.choice(FORCED)
            qs = rng.sample((0.0, .25, .5, .75, 1.0), 1)
            guarded(res, (PID, SEED, arg, i), lambda: tree.open_case(c), "%s %s %s" % (c["name"], c["force"], c["desc"]), len(c["data"]),
                    bool(c["force"]), qs)
    return res


FORCED = sorted(i for i, p in tree.PARSERS.items() if p in extractors)


def main():
    c = check.Check(PID, "one extraction or API history: (parser, set of keys with values, groups)",
                    required=("extractions", "values", "exports", "exports with groups", "api histories", "date texts",
                              "parsers without extractor", "offered values accepted"))
    c.assumptions = ["headers, priorities, types and ranges are those of the table of documented items in the check; items added "
                     "later are judged by the general rules only"]
    k = c.n(3, 40)
    cases = [("file", n) for n in range(len(corpus.names()))]
    for n in range(600 * k):
        cases += [("api", n), ("dates", n)] + [("hostile", 6 * n + i) for i in range(6)] + [("forced", n)]
    c.run(case, cases, timeout=240, deadline=c.deadline(100, 800), on_timeout=c.note_timeout)
    return c.finish()


if __name__ == "__main__":
    raise SystemExit(main())
