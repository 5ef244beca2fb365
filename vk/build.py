"""Model -> real objects (public constructors) and real objects -> model."""

import datetime as dt
import enum

from . import spec as sp
from .spec import SPECS, Node


class Mismatch(Exception):
    """The object holds something its documented type does not allow."""


def mk_dt(v):
    from fastkml.enums import DateTimeResolution
    from fastkml.times import KmlDateTime

    return KmlDateTime(v[1], DateTimeResolution(v[0]))


def mk_items(items):
    import pygeoif.geometry as geo
    from fastkml.gx import Angle, TrackItem

    return [
        TrackItem(when=mk_dt(w), coord=geo.Point(*c), angle=None if a is None else Angle(*a))
        for w, c, a in items
    ]


def scalar(fld, v):
    k = fld.kind.removeprefix("A_")
    if k == "enum":
        return sp.enum_cls(fld.enum)(v)
    if k == "dt":
        return mk_dt(v)
    return v


def kwargs_of(n: Node, nskw=None):
    spec = SPECS[n.cls]
    kw = {}
    for fld in spec.fields:
        v = n.get(fld.attr)
        if v is None:
            continue
        if fld.kind == "child":
            kw[fld.attr] = build(v, nskw)
        elif fld.kind == "children":
            kw[fld.attr] = [build(x, nskw) for x in v]
        elif fld.kind == "coords":
            kw[fld.attr] = list(v)
        elif fld.kind == "track":
            kw[fld.attr] = mk_items(v)
        else:
            kw[fld.attr] = scalar(fld, v)
    return kw


def ns_kwargs(cls, nskw):
    if not nskw:
        return {}
    nsid = SPECS[cls].nsid
    out = {"name_spaces": dict(nskw)}
    if nskw.get(nsid) is not None and nsid == "kml" and not NS_BY_MAP[0]:
        out["ns"] = nskw[nsid]
    return out


NS_BY_MAP = [False]  # True: name_spaces alone says it


def build(n: Node, nskw=None):
    """
    Build the real object. nskw: name_spaces mapping for all of the tree.

    A node that occurs twice in the model (see share) becomes one object that
    occurs twice.
    """
    memo = _MEMO[0]
    if memo is None:
        return SPECS[n.cls].pycls(**ns_kwargs(n.cls, nskw), **kwargs_of(n, nskw))
    if id(n) not in memo:
        memo[id(n)] = SPECS[n.cls].pycls(**ns_kwargs(n.cls, nskw), **kwargs_of(n, nskw))
    return memo[id(n)]


_MEMO = [None]


def build_shared(n: Node, nskw=None):
    _MEMO[0] = {}
    try:
        return build(n, nskw)
    finally:
        _MEMO[0] = None


def pairs(n: Node, obj):
    """(model, object) for all parts of an object built from the model."""
    yield n, obj
    for fld in SPECS[n.cls].fields:
        v = n.get(fld.attr)
        if v is None:
            continue
        if fld.kind == "child":
            yield from pairs(v, getattr(obj, fld.attr))
        elif fld.kind == "children":
            for x, y in zip(v, getattr(obj, fld.attr)):
                yield from pairs(x, y)


# ------------------------------------------------------------------ observe
_CLS = {}


def _cls_table():
    if not _CLS:  # filled in one step: threads come here at once
        _CLS.update({s.pycls: name for name, s in SPECS.items()})
    return _CLS


def obs_dt(v, where):
    from fastkml.times import KmlDateTime

    if not isinstance(v, KmlDateTime):
        raise Mismatch(f"{where}: not a KmlDateTime: {v!r}")
    return (v.resolution.value, v.dt)


def observe(obj, *, parsed=False, where="") -> Node:
    """Read the public attributes of an object back into a model."""
    name = _cls_table().get(type(obj))
    if name is None:
        raise Mismatch(f"{where}: unexpected object {obj!r}"[:300])
    spec = SPECS[name]
    where = f"{where}/{name}"
    n = Node(name)
    for fld in spec.fields:
        v = getattr(obj, fld.attr)
        w = f"{where}.{fld.attr}"
        k = fld.kind.removeprefix("A_")
        if k in ("text", "ntext"):
            if v is None or v == "":
                continue
            if type(v) is not str and not isinstance(v, str):
                raise Mismatch(f"{w}: not a string: {v!r}")
            n.put(fld.attr, str(v))
            continue
        if k == "children":
            if v is None:
                continue
            n.put(fld.attr, [observe(x, parsed=parsed, where=w) for x in v])
            continue
        if v is None:
            continue
        if k == "child":
            n.put(fld.attr, observe(v, parsed=parsed, where=w))
        elif k == "coords":
            n.put(fld.attr, [tuple(c) for c in v])
        elif k == "track":
            n.put(fld.attr, [
                (obs_dt(i.when, w), tuple(i.coord.coords[0]), None if i.angle is None else tuple(i.angle.coords))
                for i in v
            ])
        elif k == "enum":
            if not isinstance(v, sp.enum_cls(fld.enum)):
                raise Mismatch(f"{w}: not a {fld.enum}: {v!r}")
            n.put(fld.attr, v.value)
        elif k == "dt":
            n.put(fld.attr, obs_dt(v, w))
        elif k == "bool":
            if not isinstance(v, bool):
                raise Mismatch(f"{w}: not a bool: {v!r}")
            n.f[fld.attr] = v
        elif k == "int":
            if not isinstance(v, int) or isinstance(v, bool):
                raise Mismatch(f"{w}: not an int: {v!r}")
            n.f[fld.attr] = v
        elif k == "float":
            if not isinstance(v, (float,) if parsed else (float, int)):
                raise Mismatch(f"{w}: not a float: {v!r}")
            n.f[fld.attr] = v
        else:
            raise AssertionError(fld)
    return n


# ------------------------------------------------------------------ models
def norm_dt(v):
    """Compare instants and resolution; the zone's class does not matter."""
    res, d = v
    if isinstance(d, dt.datetime):
        off = d.utcoffset()
        return (res, d.replace(tzinfo=None).isoformat(), None if off is None else off.total_seconds())
    return (res, d.isoformat(), None)


def canon(n: Node, *, group=False, angles=False, drop_falsy=False, coords_float=True):
    """
    Hashable, comparable form of a model.

    group: order of children of different kinds is not compared (reading groups
    the children by kind); angles: a track item without angles equals zero
    angles (what reading yields); drop_falsy: without the parts that lack their
    mandatory content, which are not written.
    """
    spec = SPECS[n.cls]
    out = []
    for fld in spec.fields:
        v = n.get(fld.attr)
        if v is None:
            continue
        k = fld.kind.removeprefix("A_")
        if k == "child":
            if drop_falsy and not sp.truthy(v):
                continue
            out.append((fld.attr, canon(v, group=group, angles=angles, drop_falsy=drop_falsy)))
        elif k == "children":
            items = [x for x in v if not drop_falsy or sp.truthy(x)]
            if group:
                items = sorted(items, key=lambda x: x.cls)
            if items:
                out.append((fld.attr, tuple(
                    canon(x, group=group, angles=angles, drop_falsy=drop_falsy) for x in items)))
        elif k == "coords":
            out.append((fld.attr, tuple(tuple(float(c) for c in p) for p in v)))
        elif k == "track":
            zero = (0.0, 0.0, 0.0)
            out.append((fld.attr, tuple(
                (norm_dt(w), tuple(float(x) for x in c),
                 zero if (a is None and angles) else (a if a is None else tuple(float(x) for x in a)))
                for w, c, a in v)))
        elif k == "dt":
            out.append((fld.attr, norm_dt(v)))
        elif k == "bool":
            out.append((fld.attr, ("b", v)))
        elif k in ("float",):
            out.append((fld.attr, float(v)))
        else:
            out.append((fld.attr, v))
    return (n.cls, tuple(out))


def diff(a, b, path=""):
    """First difference of two canonical forms, for messages."""
    if a == b:
        return None
    if a[0] != b[0]:
        return f"{path}: class {a[0]} vs {b[0]}"
    da, db = dict(a[1]), dict(b[1])
    path = f"{path}/{a[0]}"
    for k in list(da) + [k for k in db if k not in da]:
        x, y = da.get(k), db.get(k)
        if x == y:
            continue
        if isinstance(x, tuple) and isinstance(y, tuple):
            if x and y and isinstance(x[0], str) and x[0] in SPECS and y[0] in SPECS:
                return diff(x, y, f"{path}.{k}")
            if x and y and isinstance(x[0], tuple) and isinstance(y[0], tuple):
                if len(x) != len(y):
                    return f"{path}.{k}: {len(x)} items vs {len(y)} items"
                for i, (p, q) in enumerate(zip(x, y)):
                    if p != q:
                        if isinstance(p[0], str) and p[0] in SPECS and isinstance(q[0], str) and q[0] in SPECS:
                            return diff(p, q, f"{path}.{k}[{i}]")
                        return f"{path}.{k}[{i}]: {p!r} vs {q!r}"
        return f"{path}.{k}: {x!r} vs {y!r}"[:600]
    return f"{path}: differ"


def is_enum(v):
    return isinstance(v, enum.Enum)
