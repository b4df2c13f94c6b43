"""Oracle: facts encoded in a generated file against its tree and metadata."""
import math

from hachoir.field import Link


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if isinstance(a, float) or isinstance(b, float):
        try:
            if math.isnan(a) and math.isnan(b):
                return True
        except TypeError:
            return False
        return isinstance(a, (int, float)) and isinstance(b, (int, float)) and math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        return type(a) is type(b) and a == b
    return a == b


def generic(path):
    """path without the indexes: key of a problem"""
    out = []
    depth = 0
    for ch in path:
        if ch == "[":
            depth += 1
            out.append("[")
        if not depth:
            out.append(ch)
        if ch == "]":
            depth -= 1
            out.append("]")
    return "".join(out)


def check_tree(g, parser):
    """[(key, message)] of the facts of `g` which the tree does not state"""
    bad = []
    for kind, path, exp in g.facts:
        key = "%s:%s:%s" % (g.name, kind, generic(path))
        try:
            if kind == "absent":
                if path in parser:
                    bad.append((key, "%s exists" % path))
                continue
            if kind == "count":
                base, _, name = path.rpartition("/")
                fs = parser[base] if base else parser
                n = sum(1 for f in fs if f.name.startswith(name + "[") and f.name[len(name) + 1:-1].isdigit())
                if n != exp:
                    bad.append((key, "%s: %d fields instead of %d" % (path, n, exp)))
                continue
            f = parser[path]
            if isinstance(f, Link) and kind in ("address", "size"):
                f = f.value
            if kind == "value":
                got = f.value
            elif kind == "display":
                got = f.display
            elif kind == "description":
                got = f.description
            elif kind == "address":
                got = f.absolute_address
            elif kind == "size":
                got = f.size
            if not same(got, exp):
                bad.append((key, "%s: %s %.200r instead of %.200r" % (path, kind, got, exp)))
        except Exception as err:
            bad.append((key, "%s: %s: %s" % (path, type(err).__name__, str(err)[:200])))
    for fn in g.checks:
        try:
            bad += [("%s:%s" % (g.name, key), msg) for key, msg in fn(parser)]
        except Exception as err:
            bad.append(("%s:check" % g.name, "%s: %s" % (type(err).__name__, str(err)[:200])))
    return bad


def check_meta(g, meta):
    bad = []
    for group, key, exp in g.meta:
        name = "%s:meta:%s%s" % (g.name, generic(group) + "/" if group else "", key)
        try:
            m = meta
            if group is not None:
                m = meta[group] if meta is not None and hasattr(meta, "iterGroups") and group in meta else None
            if m is None:
                if [x for x in exp if x is not None]:
                    bad.append((name, "no metadata%s, %s=%r expected" % (" group %s" % group if group else "", key, exp)))
                continue
            got = [it.value for it in m.getItems(key)]
        except Exception as err:
            bad.append((name, "%s: %s" % (type(err).__name__, str(err)[:200])))
            continue
        need = [x for x in exp if x is not None]
        uniq = []
        for x in need:
            if not any(same(x, y) for y in uniq):
                uniq.append(x)
        miss = [x for x in uniq if not any(same(x, y) for y in got)]
        extra = [] if None in exp else [y for y in got if not any(same(x, y) for x in uniq)]
        if miss or extra:
            bad.append((name, "%s%s: %.200r instead of %.200r" % (group + "/" if group else "", key, got, uniq)))
    return bad
