"""C13: reading, writing and comparing have no side effects."""

import copy
import decimal
import io
import locale
import logging
import os
import random
import signal
import socket
import sys
import time
import warnings
import xml.etree.ElementTree as ET

from vk.build import kwargs_of, ns_kwargs
from vk.common import *
from vk.faults import BAD, sites
from vk.xmltext import Lex, model_text, to_text

RULE = ("state snapshots (all documented attributes of all objects by value and identity, namespaces, the registrations of all classes, the library's settings, namespace tables of the XML libraries, "
        "working directory and environment, warning filters, logging, locale, decimal context, random state, time zone, streams and signals, and how the XML library's own default parser reads a probe text) are taken before and compared after each of a random sequence of operations; aliasing probes change the caller's lists, dicts and elements, one of two equal trees, one branch of a tree, or an output "
        "element, and compare the others; non-trivial: distinct operation sequence and document")
NEED = {"ops": 5000, "op:to_string": 300, "op:etree_element": 200, "op:repr": 200, "op:eq": 200, "op:find_all": 200, "op:validate": 100, "op:geometry": 100, "op:write": 100, "op:failing": 50, "op:parse": 100,
        "hollow": 300, "alias:caller": 100, "alias:twin": 100, "alias:branch": 100, "alias:element-in": 100, "alias:element-out": 100, "alias:default": 20, "alias:geometry": 100}
ASSUMPTIONS = ["private attributes are not part of the state looked at"]


def cases(tier, seed):
    yield from (("default:" + c, c) for c in ALL)
    yield from random_cases(6000 if tier == "quick" else 40000, "ops")
    yield from random_cases(9600 if tier == "quick" else 60000, "alias")


# ------------------------------------------------------------------ snapshots
def freeze(v, depth=0):
    """Value and identity of a documented attribute."""
    from fastkml.base import _XMLObject

    if isinstance(v, _XMLObject):
        return snap(v)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(freeze(x) for x in v))
    if v is None or isinstance(v, (str, bool, int, float)):
        return (type(v).__name__, v)
    return (id(v), repr(v))


def snap(obj):
    from vk.build import _cls_table

    name = _cls_table()[type(obj)]
    out = [id(obj), name, obj.ns, tuple(sorted(obj.name_spaces.items()))]
    for fld in SPECS[name].fields:
        out.append((fld.attr, freeze(getattr(obj, fld.attr))))
    return tuple(out)


def world():
    from fastkml import config
    from fastkml.registry import registry

    w = {"config." + k: (id(getattr(config, k)) if k == "etree" else copy.copy(getattr(config, k)))
         for k in ("etree", "KMLNS", "GXNS", "ATOMNS", "NAME_SPACES", "DEFAULT_NAME_SPACES")}
    for c in ALL:
        cls = SPECS[c].pycls
        w["registry." + c] = [(i.ns_ids, i.classes, i.attr_name, i.get_kwarg, i.set_element, i.node_name, i.default) for i in registry.get(cls)]
    w["et-namespaces"] = dict(ET._namespace_map)
    w["cwd"], w["environ"], w["recursion"] = os.getcwd(), dict(os.environ), sys.getrecursionlimit()
    w["modes"] = (sys.getswitchinterval(), sys.flags.dev_mode)
    w["warnings"] = (list(warnings.filters), id(warnings.showwarning))
    w["logging"] = (logging.root.manager.disable, logging.root.level, list(logging.root.handlers), sorted(
        (n, lg.level, lg.propagate, lg.disabled, len(lg.handlers), len(lg.filters))
        for n, lg in list(logging.root.manager.loggerDict.items())
        if isinstance(lg, logging.Logger) and (lg.level or lg.disabled or lg.handlers or lg.filters or not lg.propagate)))
    w["locale"], w["decimal"] = locale.setlocale(locale.LC_ALL), repr(decimal.getcontext())
    w["timezone"], w["random"] = (time.tzname, time.timezone), hash(random.getstate())
    w["streams"] = (id(sys.stdout), id(sys.stderr), id(sys.stdin), id(sys.excepthook))
    w["path"] = (list(sys.path), socket.getdefaulttimeout(), signal.getsignal(signal.SIGINT))
    w["parser"] = parser_habits()
    return w


PROBE = "<!DOCTYPE a [<!ENTITY e 'v'>]><a> <!-- c --><?p i?><![CDATA[<d>]]><b>&e;</b>\n </a>"


def parser_habits():
    """What a program sees that parses XML of its own with the same library."""
    from lxml import etree, objectify

    return tuple(etree.tostring(mod.fromstring(PROBE)) + type(mod.fromstring(PROBE)).__name__.encode() for mod in (etree, objectify))


def world_diff(a, b):
    return [k for k in a if a[k] != b.get(k)]


def first_diff(a, b, path=""):
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, f"{path}.{x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else i}")
            if d:
                return d
    return f"{path}: {str(a)[:200]} -> {str(b)[:200]}"


# ------------------------------------------------------------------ operations
def operations(ctx, rng, obj, other, node, text):
    """(name, thunk) of everything that must not change anything."""
    from fastkml import utils
    from fastkml.enums import Verbosity
    from fastkml.base import _XMLObject

    cls = type(obj)
    verb = getattr(Verbosity, rng.choice(("normal", "terse", "verbose")))
    kw = {"precision": rng.choice((None, 0, 2, 7)), "verbosity": verb}
    ops = {
        "to_string": lambda: obj.to_string(prettyprint=rng.random() < 0.5, **kw),
        "str": lambda: str(obj),
        "etree_element": lambda: obj.etree_element(**kw),
        "repr": lambda: repr(obj),
        "eq": lambda: (obj == other, other == obj, obj != other, obj == obj, obj == 1, obj == None),  # noqa: E711
        "find_all": lambda: list(utils.find_all(obj, of_type=rng.choice((None, _XMLObject, cls)), **rng.choice(({}, {"id": "x"}, {"name": None})))),
        "find": lambda: utils.find(obj, of_type=type(other), visibility=True),
        "validate": lambda: validated(obj),
        "bool": lambda: bool(obj),
        "geometry": lambda: geometries(obj),
        "from_string": lambda: cls.from_string(text, strict=rng.random() < 0.5, name_spaces=rng.choice((None, {"kml": "{http://www.opengis.net/kml/2.2}", "ex": "{http://ex.org/}"}))),
        "failing": lambda: failing(rng, node),
        "copy": lambda: copied(obj),
    }
    if node.cls == "KML":
        ops["write"] = lambda: obj.write(ctx.scratch / rng.choice(("f.kml", "f.kmz")), **kw)
        ops["parse"] = lambda: cls.parse(io.BytesIO(text.encode()), strict=False, validate=rng.choice((None, False)), name_spaces=rng.choice((None, {"ex": "{http://ex.org/}"})))
    if node.cls == "Document":
        ops["get_style_by_url"] = lambda: obj.get_style_by_url("#id1")
    return ops


def copied(obj):
    try:
        return copy.deepcopy(obj)
    except AttributeError:  # pygeoif geometries (in tracks) do not support it
        return copy.copy(obj)


def validated(obj):
    try:
        return obj.validate()
    except AssertionError:
        return False


def failing(rng, node):
    """Reading a document with a bad value, in both modes."""
    n = node.copy()
    ps = sites(n)
    if not ps:
        return
    m, f, k = rng.choice(ps)
    text = to_text(expect(n, raw={(id(m), f.attr): rng.choice(BAD[k])}), Lex.plain())
    cls = SPECS[n.cls].pycls
    try:
        cls.from_string(text, strict=True)
    except Exception:
        pass
    cls.from_string(text, strict=False)


def geometries(obj):
    from fastkml import utils
    from fastkml.base import _XMLObject

    for o in utils.find_all(obj, of_type=_XMLObject):
        for a in ("geometry", "time_stamp", "begin", "end", "whens", "coords", "angles"):
            try:
                v = getattr(o, a, None)
                list(v) if a in ("whens", "coords", "angles") and v is not None else v
            except (ValueError, AttributeError, NotImplementedError, TypeError):
                pass


def ops_case(ctx, rng):
    node = tree(rng)
    if rng.random() < 0.25 and hollow(rng, node):
        ctx.hit("hollow")
    text = model_text(node)
    done = []
    with backend(rng.choice(("lxml", "stdlib"))):
        if rng.random() < 0.5:
            obj = build(node)
        else:
            obj = SPECS[node.cls].pycls.from_string(text)
        other = build(rng.choice((node, tree(rng))))
        w0, s0, t0 = world(), snap(obj), snap(other)
        out0 = obj.to_string()
        names = sorted(operations(ctx, rng, obj, other, node, text))
        for _ in range(rng.choice((4, 8, 12))):
            ops = operations(ctx, rng, obj, other, node, text)
            name = rng.choice(names)
            done.append(name)
            ops[name]()
            ctx.hit("ops")
            ctx.hit("op:" + name)
            ctx.ok(n=3)
            s1, t1 = snap(obj), snap(other)
            if s1 != s0:
                ctx.fail("object-changed", f"{name} changed the object: {first_diff(s0, s1)}", model=node)
                return
            if t1 != t0:
                ctx.fail("other-object-changed", f"{name} changed another object: {first_diff(t0, t1)}", model=node)
                return
            d = world_diff(w0, world())
            if d:
                ctx.fail("settings-changed", f"{name} changed {d}", model=node)
                return
        if obj.to_string() != out0:
            ctx.fail("output-changed", f"output differs after {done}", before=out0, after=obj.to_string())
    ctx.distinct((text, done))
    for f in ("f.kml", "f.kmz"):
        (ctx.scratch / f).unlink(missing_ok=True)


# ------------------------------------------------------------------ aliasing
def scramble(rng, obj, keep_children=False):
    """Change everything an object tree holds, in place."""
    from vk.build import _cls_table

    name = _cls_table()[type(obj)]
    for fld in SPECS[name].fields:
        v = getattr(obj, fld.attr)
        if fld.kind == "child":
            if v is not None:
                scramble(rng, v)
        elif fld.kind == "children":
            for x in v or ():
                scramble(rng, x)
            if isinstance(v, list):
                v.append("alien")
                v.insert(0, "alien")
        elif fld.kind in ("coords", "track"):
            if isinstance(v, list):
                v.append("alien")
        elif fld.kind.removeprefix("A_") == "dt" and v is not None:
            try:
                v.dt = v.dt.replace(year=1234, day=1)
                v.resolution = None
            except AttributeError:  # an immutable value may be shared
                pass
        else:
            setattr(obj, fld.attr, "alien")
    obj.name_spaces["kml"] = "{alien}"
    obj.name_spaces["alien"] = "{alien}"
    obj.ns = "{alien}"


def fresh_check(ctx, cls, text, ref, w0, what):
    """Reading again still gives the same, and nothing global changed."""
    again = cls.from_string(text)
    ctx.ok(n=2)
    if canon(observe(again, parsed=True)) != ref:
        ctx.fail("later-read-differs", f"{what}: {diff(ref, canon(observe(again, parsed=True)))}", xml=text)
    if again.ns == "{alien}" or "alien" in again.name_spaces:
        ctx.fail("later-read-namespaces", f"{what}: namespaces of a later read changed")
    d = world_diff(w0, world())
    if d:
        ctx.fail("settings-changed", f"{what} changed {d}")


def caller_namespaces(rng):
    """A mapping a caller may pass: partial or complete."""
    full = {"kml": "{http://www.opengis.net/kml/2.2}", "gx": "{http://www.google.com/kml/ext/2.2}", "atom": "{http://www.w3.org/2005/Atom}"}
    return rng.choice(({"ex": "{http://ex.org/}"}, {}, full, {**full, "ex": "{http://ex.org/}"}, {"kml": full["kml"]}))


def alias_case(ctx, rng):
    node = tree(rng)
    cls = SPECS[node.cls].pycls
    text = model_text(node)
    probe = rng.choice(("caller", "twin", "branch", "element-in", "element-out", "geometry", "name_spaces"))
    ctx.hit("alias:" + probe)
    ctx.distinct((probe, text))
    with backend(rng.choice(("lxml", "stdlib"))):
        w0 = world()
        if probe == "caller":
            subs = [n for n in node.walk() if any(f.kind in ("children", "coords", "track") and n.get(f.attr) for f in SPECS[n.cls].fields)]
            n = rng.choice(subs or [node])
            kw = kwargs_of(n)
            lists = {k: v for k, v in kw.items() if isinstance(v, list)}
            before = {k: list(v) for k, v in lists.items()}
            nsd0 = caller_namespaces(rng)
            nsd = dict(nsd0)
            obj = SPECS[n.cls].pycls(name_spaces=nsd, **kw)
            obj.to_string()
            s0 = snap(obj)
            ctx.ok(n=3)
            if nsd != nsd0 or any(before[k] != list(v) or any(x is not y for x, y in zip(before[k], v)) for k, v in lists.items()):
                ctx.fail("arguments-changed", f"constructing {n.cls} changed its arguments")
            for v in lists.values():
                v.clear()
                v.append("alien")
            nsd["alien"] = "{alien}"
            nsd["kml"] = "{alien}"
            if snap(obj) != s0:
                ctx.fail("follows-caller", f"{n.cls}: changing the caller's list or dict changed the object: {first_diff(s0, snap(obj))}")
            # and the other way round
            kw = kwargs_of(n)
            lists = {k: v for k, v in kw.items() if isinstance(v, list)}
            before = {k: list(v) for k, v in lists.items()}
            nsd = dict(nsd0)
            obj = SPECS[n.cls].pycls(name_spaces=nsd, **kw)
            for k in lists:
                v = getattr(obj, k)
                if isinstance(v, list):
                    v.append("alien")
            obj.name_spaces["alien"] = "x"
            if nsd != nsd0 or any(before[k] != v for k, v in lists.items()):
                ctx.fail("caller-follows", f"{n.cls}: changing the object changed the caller's list or dict")
            return
        ref = canon(observe(cls.from_string(text), parsed=True))
        if probe == "twin":
            if rng.random() < 0.5:
                a, b = cls.from_string(text), cls.from_string(text)
            else:
                a, b = build(node), build(node)
            s0, out0 = snap(b), b.to_string()
            scramble(rng, a)
            ctx.ok(n=2)
            if snap(b) != s0:
                ctx.fail("twin-changed", f"changing one tree changed another: {first_diff(s0, snap(b))}", xml=text)
            elif b.to_string() != out0:
                ctx.fail("twin-output-changed", "changing one tree changed the output of another", xml=text)
            fresh_check(ctx, cls, text, ref, w0, "changing a tree")
        elif probe == "branch":
            a = cls.from_string(text) if rng.random() < 0.7 else build(node)
            kids = []
            for fld in SPECS[node.cls].fields:
                v = getattr(a, fld.attr)
                if fld.kind == "child" and v is not None:
                    kids.append(v)
                elif fld.kind == "children":
                    kids += list(v or ())
            if not kids:
                return
            i = rng.randrange(len(kids))
            rest = [snap(x) for j, x in enumerate(kids) if j != i]
            top = (a.ns, dict(a.name_spaces))
            scramble(rng, kids[i])
            now = [snap(x) for j, x in enumerate(kids) if j != i]
            ctx.ok(n=2)
            if rest != now:
                ctx.fail("sibling-changed", f"changing a child changed its siblings: {[first_diff(x, y) for x, y in zip(rest, now) if x != y][0]}", xml=text)
            if top != (a.ns, dict(a.name_spaces)):
                ctx.fail("parent-changed", "changing a child changed the namespaces of its parent", xml=text)
            fresh_check(ctx, cls, text, ref, w0, "changing a child")
        elif probe == "element-in":
            from fastkml import config

            el = config.etree.fromstring(text)
            i0 = info(el)
            raw0 = config.etree.tostring(el)
            nsd = {**config.NAME_SPACES}
            a = cls.class_from_element(ns=cls._get_ns(None, nsd), name_spaces=nsd, element=el, strict=rng.random() < 0.5)
            ctx.ok(n=2)
            if info(el) != i0 or config.etree.tostring(el) != raw0:
                ctx.fail("element-changed", "reading changed the element", xml=text)
            if nsd != config.NAME_SPACES:
                ctx.fail("arguments-changed", "reading changed name_spaces")
            s0, out0 = snap(a), a.to_string()
            for e in list(el.iter()):
                e.text = "alien"
                e.set("id", "alien")
            for e in list(el):
                el.remove(e)
            if snap(a) != s0 or a.to_string() != out0:
                ctx.fail("follows-element", "changing the element after reading changed the object", xml=text)
        elif probe == "element-out":
            a = build(node)
            e1 = a.etree_element()
            i0 = info(e1)
            s0 = snap(a)
            e2 = a.etree_element()
            for e in list(e1.iter()):
                e.text = "alien"
                e.set("id", "alien")
            ctx.ok(n=3)
            if snap(a) != s0:
                ctx.fail("follows-output", f"changing the output changed the object: {first_diff(s0, snap(a))}", xml=text)
            if info(e2) != i0 or info(a.etree_element()) != i0:
                ctx.fail("outputs-shared", "changing one output changed another", xml=text)
        elif probe == "geometry":
            geometry_probe(ctx, rng)
        else:
            nsd0 = caller_namespaces(rng)
            nsd = dict(nsd0)
            a = cls.from_string(text, name_spaces=nsd)
            b = cls.from_string(text, name_spaces=nsd)
            ctx.ok(n=2)
            if node.cls == "KML":
                cls.parse(io.BytesIO(text.encode()), name_spaces=nsd, validate=False)
            if nsd != nsd0:
                ctx.fail("arguments-changed", "reading changed name_spaces")
            s0, r0 = snap(b), snap(a)
            nsd["kml"] = "{alien}"
            nsd["alien"] = "{alien}"
            if snap(a) != r0:
                ctx.fail("follows-caller", f"changing the caller's name_spaces changed what was read: {first_diff(r0, snap(a))}")
            scramble(rng, a)
            if snap(b) != s0:
                ctx.fail("namespaces-shared", f"{first_diff(s0, snap(b))}")
            fresh_check(ctx, cls, text, ref, w0, "changing name_spaces")


def geometry_probe(ctx, rng):
    import pygeoif.geometry as geo
    from fastkml import Placemark
    from fastkml.geometry import create_kml_geometry

    c = [(rng.uniform(-9, 9), rng.uniform(-9, 9), 3.0) for _ in range(5)]
    ring = [*c, c[0]]
    src = rng.choice((
        {"type": "Point", "coordinates": c[0]}, {"type": "LineString", "coordinates": [list(x) for x in c]}, {"type": "Polygon", "coordinates": [ring, ring]},
        {"type": "MultiPoint", "coordinates": [list(x) for x in c]}, {"type": "GeometryCollection", "geometries": [{"type": "Point", "coordinates": list(c[0])}, {"type": "LineString", "coordinates": list(c)}]},
        geo.LineString(c), geo.Polygon(ring, [ring]), geo.MultiLineString([c, c]), geo.GeometryCollection([geo.Point(*c[0]), geo.LineString(c)])))
    before, rep = copy.deepcopy(src) if isinstance(src, dict) else src, repr(src)
    from pygeoif.factories import shape

    obj = create_kml_geometry(shape(src) if isinstance(src, dict) else src)
    pm = Placemark(geometry=shape(src) if isinstance(src, dict) else src)
    pm.to_string()
    g0 = repr(obj.geometry)
    obj.geometry
    ctx.ok(n=3)
    if src != before or repr(src) != rep:
        ctx.fail("geometry-changed", f"{rep} became {src!r}")
    scramble(rng, obj)
    if repr(pm.geometry) != g0:
        ctx.fail("geometry-shared", "two KML geometries made of one geometry share state")
    if src != before or repr(src) != rep:
        ctx.fail("geometry-changed", f"changing the KML geometry: {rep} became {src!r}")


def default_case(ctx, rng, cls):
    """Objects constructed without arguments share nothing."""
    py = SPECS[cls].pycls
    kw = {"id": "x"} if cls == "Schema" else {}
    w0 = world()
    a, b = py(**kw), py(**kw)
    s0 = snap(b)
    scramble(rng, a)
    ctx.hit("alias:default")
    ctx.ok(cls, n=2)
    if snap(b) != s0:
        ctx.fail("defaults-shared", f"{cls}: {first_diff(s0, snap(b))}")
    c = py(**kw)
    if snap(c)[2:] != s0[2:]:
        ctx.fail("defaults-changed", f"{cls}: {first_diff(s0[2:], snap(c)[2:])}")
    d = world_diff(w0, world())
    if d:
        ctx.fail("settings-changed", f"changing a {cls} changed {d}")


def run(ctx, case_id, payload):
    kind = case_id.partition(":")[0]
    if kind == "default":
        default_case(ctx, ctx.rng, payload)
    elif kind == "ops":
        ops_case(ctx, ctx.rng)
    else:
        alias_case(ctx, ctx.rng)
