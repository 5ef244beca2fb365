"""
Reference serializer and XML comparison.

expect() says, from the hand-written vocabulary table only, which elements,
attributes and values a model must be written as; compare() holds a real
element (or parsed text) against it.  Numbers, booleans and times are compared
by value, everything else exactly.  The order of elements is compared within
one list valued property, not between different properties.
"""

import datetime as dt
import re
import xml.etree.ElementTree as ET
from decimal import Decimal

from . import spec as sp
from .spec import SPECS, Node, qn

DOUBLE = re.compile(r"[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?\Z")
INT = re.compile(r"[+-]?\d+\Z")
DT = re.compile(
    r"(?P<Y>\d{4})(-(?P<M>\d\d)(-(?P<D>\d\d)"
    r"(T(?P<h>\d\d):(?P<m>\d\d):(?P<s>\d\d)(\.(?P<f>\d{1,6})\d*)?(?P<z>Z|[+-]\d\d:\d\d)?)?)?)?\Z"
)


class Exp:
    """Expected element; groups = {property: [Exp...]} in list order."""

    __slots__ = ("tag", "attrs", "text", "groups", "tags")

    def __init__(self, tag):
        self.tag = tag
        self.attrs = {}
        self.text = None
        self.groups = {}

    def count(self):
        return 1 + sum(c.count() for g in self.groups.values() for c in g)


def parse_dt(text):
    """Own reader of the KML dateTime lexical forms -> (resolution, value)."""
    m = DT.match(text)
    if not m:
        return None
    g = m.groupdict()
    try:
        y = int(g["Y"])
        if g["M"] is None:
            return ("gYear", dt.date(y, 1, 1))
        if g["D"] is None:
            return ("gYearMonth", dt.date(y, int(g["M"]), 1))
        if g["h"] is None:
            return ("date", dt.date(y, int(g["M"]), int(g["D"])))
        us = int((g["f"] or "0").ljust(6, "0"))
        tz = None
        if g["z"] == "Z":
            tz = dt.timezone.utc
        elif g["z"]:
            sign = -1 if g["z"][0] == "-" else 1
            tz = dt.timezone(sign * dt.timedelta(hours=int(g["z"][1:3]), minutes=int(g["z"][4:6])))
        return ("dateTime", dt.datetime(y, int(g["M"]), int(g["D"]), int(g["h"]), int(g["m"]), int(g["s"]), us, tz))
    except ValueError:
        return None


def same_dt(a, b):
    if a is None or b is None or a[0] != b[0]:
        return False
    x, y = a[1], b[1]
    if isinstance(x, dt.datetime) != isinstance(y, dt.datetime):
        return False
    if isinstance(x, dt.datetime):
        return x.replace(tzinfo=None) == y.replace(tzinfo=None) and x.utcoffset() == y.utcoffset()
    return x == y


def num_ok(text, value, precision=None):
    """Does the text denote the number (rounded to precision decimals)?"""
    if not DOUBLE.match(text):
        return f"{text!r} is not a decimal number"
    if precision is None:
        if float(text) != float(value):
            return f"{text!r} does not denote {value!r}"
        return None
    frac = text.partition(".")[2]
    if len(frac) != precision or not frac.isdigit() and precision:
        return f"{text!r} does not have {precision} decimals"
    if abs(Decimal(text) - Decimal(float(value))) * 2 > Decimal(1).scaleb(-precision):
        return f"{text!r} is not {value!r} rounded to {precision} decimals"
    return None


def value_ok(kind, want, text, precision=None):
    """None if text denotes the wanted value, else what is wrong."""
    if text is None:
        text = ""
    if kind in ("text", "ntext", "enum"):
        return None if text == want else f"{text!r} instead of {want!r}"
    if kind == "bool":
        got = {"1": True, "true": True, "0": False, "false": False}.get(text)
        return None if got is want else f"{text!r} instead of {want!r}"
    if kind == "int":
        if not INT.match(text) or int(text) != want:
            return f"{text!r} instead of {want!r}"
        return None
    if kind == "float":
        return num_ok(text, want)
    if kind == "dt":
        return None if same_dt(parse_dt(text), want) else f"{text!r} instead of {want!r}"
    if kind in ("coords", "triple"):
        pts = text.split() if kind == "coords" else [text]
        if len(pts) != len(want):
            return f"{len(pts)} positions instead of {len(want)}"
        for i, (p, w) in enumerate(zip(pts, want)):
            parts = p.split(",") if kind == "coords" else p.split()
            if len(parts) != len(w):
                return f"position {i}: {p!r} instead of {w!r}"
            for t, v in zip(parts, w):
                bad = num_ok(t, v, precision)
                if bad:
                    return f"position {i}: {bad}"
        return None
    raise AssertionError(kind)


def ns_of(cls, nskw):
    nsid = SPECS[cls].nsid
    return uri(nsid, nskw)


def uri(nsid, nskw):
    if nskw and nsid in nskw:
        return nskw[nsid].strip("{}")
    return sp.URIS[nsid]


def expect(n: Node, *, verbosity="normal", nskw=None, raw=None) -> Exp:
    """raw: {(id(node), attr): text} spells a value with the given text."""
    spec = SPECS[n.cls]
    own = ns_of(n.cls, nskw)
    e = Exp(qn(own, spec.tag))
    for fld in spec.fields:
        v = n.get(fld.attr)
        k = fld.kind
        if k == "child":
            if sp.truthy(v):
                e.groups[fld.attr] = [expect(v, verbosity=verbosity, nskw=nskw, raw=raw)]
            continue
        if k == "children":
            e.groups[fld.attr] = [expect(x, verbosity=verbosity, nskw=nskw, raw=raw) for x in v or () if sp.truthy(x)]
            continue
        if k == "coords":
            if v:
                e.text = ("coords", v)
                if raw and (id(n), fld.attr) in raw:
                    e.text = ("raw", raw[(id(n), fld.attr)])
            continue
        if k == "track":
            items = v or []
            kml, gx = uri("kml", nskw), uri("gx", nskw)
            e.groups["when"] = [leaf(qn(kml, "when"), "dt", w) for w, _, _ in items]
            e.groups["coord"] = [leaf(qn(gx, "coord"), "triple", [c]) for _, c, _ in items]
            if any(a is not None for _, _, a in items):
                e.groups["angles"] = [
                    leaf(qn(gx, "angles"), "triple", [a if a is not None else (0.0, 0.0, 0.0)]) for _, _, a in items
                ]
            continue
        if verbosity == "verbose" and v is None:
            v = fld.default
        if v is None or (verbosity == "terse" and v == fld.default):
            continue
        bad = raw.get((id(n), fld.attr)) if raw else None
        if k.startswith("A_"):
            if k == "A_text" and v == "":
                continue
            e.attrs[fld.node] = (k[2:], v) if bad is None else ("raw", bad)
        elif k == "ntext":
            e.text = ("ntext", v)
        else:
            space = own
            if fld.enum == "AltitudeMode":
                space = uri("gx" if v in sp.GX_ENUM_VALUES else "kml", nskw)
            elif k == "dt":
                space = uri("kml", nskw)
            e.groups[fld.attr] = [leaf(qn(space, fld.node), *((k, v) if bad is None else ("raw", bad)))]
    return e


def leaf(tag, kind, value):
    e = Exp(tag)
    e.text = (kind, value)
    return e


def short(tag):
    return tag.rpartition("}")[2]


def compare(exp: Exp, el, *, precision=None, path="") -> list:
    """All differences between the expectation and a real element."""
    out = []
    path = f"{path}/{short(exp.tag)}"
    if el.tag != exp.tag:
        return [f"{path}: element {el.tag!r} instead of {exp.tag!r}"]
    got_attrs = dict(el.attrib)
    for name, (kind, want) in exp.attrs.items():
        if name not in got_attrs:
            out.append(f"{path}@{name}: missing (expected {want!r})")
            continue
        bad = value_ok(kind, want, got_attrs.pop(name))
        if bad:
            out.append(f"{path}@{name}: {bad}")
    for name, val in got_attrs.items():
        out.append(f"{path}@{name}: unexpected attribute {val!r}")
    kids = [c for c in el if isinstance(c.tag, str)]
    text = el.text
    if exp.text is not None:
        bad = value_ok(exp.text[0], exp.text[1], text, precision)
        if bad:
            out.append(f"{path}: {bad}"[:400])
    elif text and text.strip():
        out.append(f"{path}: unexpected text {text[:80]!r}")
    used = set()
    for name, want in exp.groups.items():
        tags = {w.tag for w in want}
        got = []
        for i, c in enumerate(kids):
            if c.tag in tags:
                used.add(i)
                got.append(c)
        if len(got) != len(want):
            have = [short(c.tag) for c in got]
            out.append(f"{path}: {name}: {len(got)} elements {have[:6]} instead of {len(want)} "
                       f"{[short(w.tag) for w in want][:6]}")
            continue
        for w, c in zip(want, got):
            out.extend(compare(w, c, precision=precision, path=path))
            if len(out) > 5:
                return out
    for i, c in enumerate(kids):
        if i not in used:
            out.append(f"{path}: unexpected element {c.tag!r} {str(c.text)[:60]!r}")
        if c.tail and c.tail.strip():
            out.append(f"{path}: stray text {c.tail[:60]!r}")
    return out


# -------------------------------------------------------------- infosets
def info(el):
    """Comparable infoset of an element: insignificant whitespace removed."""
    kids = tuple(info(c) for c in el if isinstance(c.tag, str))
    text = el.text or ""
    if kids and not text.strip():
        text = ""
    return (el.tag, tuple(sorted(el.attrib.items())), text, kids)


def parse(text):
    """Independent parse (expat) of serializer output."""
    if isinstance(text, str):
        text = text.encode("utf-8")
    return ET.fromstring(text)


def info_text(text):
    return info(parse(text))


def info_diff(a, b, path=""):
    if a == b:
        return None
    p = f"{path}/{short(a[0])}"
    if a[0] != b[0]:
        return f"{path}: {a[0]} vs {b[0]}"
    if a[1] != b[1]:
        return f"{p}: attributes {a[1]} vs {b[1]}"
    if a[2] != b[2]:
        return f"{p}: text {a[2][:200]!r} vs {b[2][:200]!r}"
    if len(a[3]) != len(b[3]):
        return f"{p}: children {[short(c[0]) for c in a[3]]} vs {[short(c[0]) for c in b[3]]}"[:400]
    for x, y in zip(a[3], b[3]):
        d = info_diff(x, y, p)
        if d:
            return d
    return f"{p}: differ"
