"""C19: registered extensions work for their class and nothing else."""

import os
import pickle
import sys
import traceback

from checks import c15
from vk.common import *
from vk.refxml import leaf, value_ok
from vk.spec import ENUMS, URIS, enum_cls, qn
from vk.xmltext import Lex, to_text

RULE = ("in forked processes with a registry already in use, 1 to 5 attributes of every kind (text, number, boolean, enumeration, date elements and attributes, child and list of children, with and without defaults) are registered for random classes, "
        "base classes and user defined subclasses; for each affected class the extension is constructed, written, read, compared, printed and searched; all other classes, and objects that do not use it, must give the outputs, objects and reprs recorded before; "
        "non-trivial: distinct (class, kind, registration set)")
NEED = {"registrations": 500, "uses": 2000, "unaffected-compared": 20000, "user-subclass": 100, "base-class": 60, "kind:child": 50, "kind:children": 50, "kind:A_int": 20, "kind:enum": 20, "late-registration": 100, "bad-values": 100, "in-tree": 200, "same-xml-name": 50, "aliases": 300}
ASSUMPTIONS = ["the repr of an object with a registered enumeration is only required to show the value, not to be evaluable", "extensions are registered with the helper functions of the library and element or attribute names not used by the class already"]

KINDS = ("text", "int", "float", "bool", "enum", "dt", "A_text", "A_int", "A_float", "A_enum", "child", "children", "children")
BASES = {"_XMLObject": "fastkml.base:_XMLObject", "_Geometry": "fastkml.geometry:_Geometry", "BoundaryIs": "fastkml.geometry:BoundaryIs", "_AtomObject": "fastkml.atom:_AtomObject", "_BaseObject": "fastkml.kml_base:_BaseObject", "_Feature": "fastkml.features:_Feature", "_Container": "fastkml.containers:_Container", "_Overlay": "fastkml.overlays:_Overlay",
         "_ColorStyle": "fastkml.styles:_ColorStyle", "_AbstractView": "fastkml.views:_AbstractView", "_TimePrimitive": "fastkml.times:_TimePrimitive"}
SNAP = {}  # label -> (node, text, verbose text, repr)
PARTS = ("Lod", "Scale", "Alias", "Orientation", "LatLonBox", "ImagePyramid", "Data", "Author", "TimeStamp", "Point", "StyleUrl", "Snippet")


def snap(node):
    from fastkml.enums import Verbosity

    obj = build(node)
    text = obj.to_string()
    back = type(obj).from_string(text)
    return (text, obj.to_string(verbosity=Verbosity.verbose), obj.to_string(verbosity=Verbosity.terse, prettyprint=False), repr(obj), repr(back), back == obj,
            tuple(sorted(obj.__dict__)) == tuple(sorted(build(node).__dict__)))


def setup(ctx):
    c15.setup(ctx)
    rng = random.Random("c19-snap")
    for cls in ALL:
        for full in (False, True):
            gen = g.Gen(rng, max_depth=2, fill=0.6)
            node = gen.node(cls, full=full, minimal=not full)
            SNAP[(cls, full)] = (node, snap(node))


def cases(tier, seed):
    yield from random_cases(1280 if tier == "quick" else 20000, "ext")
    yield from random_cases(240 if tier == "quick" else 4000, "alias")


# ------------------------------------------------------------------ values
def pick(path):
    import importlib

    mod, _, name = path.partition(":")
    return getattr(importlib.import_module(mod), name)


def dt_of(v):
    from vk.build import mk_dt

    return mk_dt(v)


class Ext:
    """One registration."""

    def __init__(self, target, cls, attr, node, kind, **kw):
        self.target, self.cls, self.attr, self.node, self.kind = target, cls, attr, node, kind
        self.enum = kw.get("enum", "")
        self.default = kw.get("default")
        self.part = kw.get("part")  # model class or user class description of children

    def value(self, rng, gen):
        """(python value, model value)"""
        k = self.kind.removeprefix("A_")
        if k == "text":
            v = gen.text()
            return v, v
        if k == "int":
            v = gen.int_()
            return v, v
        if k == "float":
            v = gen.float_()
            return v, v
        if k == "bool":
            v = rng.random() < 0.5
            return v, v
        if k == "enum":
            v = rng.choice(ENUMS[self.enum])
            return enum_cls(self.enum)(v), v
        if k == "dt":
            v = g.gen_dt(rng)
            return dt_of(v), v
        if k == "child":
            n = self.part_model(rng, gen)
            return self.part_build(n), n
        n = [self.part_model(rng, gen) for _ in range(rng.choice((1, 2, 3)))]
        return [self.part_build(x) for x in n], n

    def part_model(self, rng, gen):
        if isinstance(self.part, str):
            return gen.node(self.part, 9, minimal=True)
        return {"vk_label": gen.text(), "vk_no": gen.int_() if rng.random() < 0.7 else None, "id": gen.text("id") if rng.random() < 0.5 else None}

    def part_build(self, m):
        return build(m) if isinstance(m, Node) else self.part(**{k: v for k, v in m.items() if v is not None})

    def part_expect(self, m):
        if isinstance(m, Node):
            return expect(m)
        ns = URIS[self.part._default_nsid]
        from vk.refxml import Exp

        e = Exp(qn(ns, self.part.get_tag_name()))
        e.groups["vk_label"] = [leaf(qn(ns, "label"), "text", m["vk_label"])]
        if m["vk_no"] is not None:
            e.attrs["no"] = ("int", m["vk_no"])
        if m["id"] is not None:
            e.attrs["id"] = ("text", m["id"])
        return e

    def apply(self, exp, own, v):
        """Add what the value must be written as to the expectation."""
        k = self.kind
        if k == "child":
            exp.groups[self.attr] = [self.part_expect(v)]
        elif k == "children":
            exp.groups[self.attr] = [self.part_expect(x) for x in v]
        elif k.startswith("A_"):
            exp.attrs[self.node] = (k[2:], v)
        else:
            exp.groups[self.attr] = [leaf(qn(URIS["kml"] if k == "dt" else own, self.node), k, v)]

    def same(self, got, model):
        k = self.kind.removeprefix("A_")
        if k == "child":
            return self.part_same(got, model)
        if k == "children":
            return isinstance(got, list) and len(got) == len(model) and all(self.part_same(a, b) for a, b in zip(got, model))
        if k == "enum":
            return got is enum_cls(self.enum)(model)
        if k == "dt":
            return got == dt_of(model)
        if k == "bool":
            return got is model
        return type(got) is type(model) and got == model

    def part_same(self, got, m):
        if isinstance(m, Node):
            return type(got) is SPECS[m.cls].pycls and canon(observe(got)) == canon(m)
        return type(got) is self.part and (got.id or None, got.vk_label, getattr(got, "vk_no", None)) == (m["id"], m["vk_label"], m["vk_no"])


HELP = {"text": "text", "int": "int", "float": "float", "bool": "bool", "enum": "enum", "dt": "datetime"}


def register(ext, owner_nsid):
    import fastkml.helpers as h
    from fastkml.registry import RegistryItem, registry
    from fastkml.times import KmlDateTime

    k = ext.kind
    base = k.removeprefix("A_")
    if k == "child":
        get, put = h.xml_subelement_kwarg, h.xml_subelement
    elif k == "children":
        get, put = h.xml_subelement_list_kwarg, h.xml_subelement_list
    elif k.startswith("A_"):
        get, put = getattr(h, f"attribute_{HELP[base]}_kwarg"), getattr(h, f"{HELP[base]}_attribute")
    elif base == "dt":
        get, put = h.datetime_subelement_kwarg, h.datetime_subelement
    else:
        get, put = getattr(h, f"subelement_{HELP[base]}_kwarg"), getattr(h, f"{HELP[base]}_subelement")
    classes = {"text": (str,), "int": (int,), "float": (float,), "bool": (bool,), "dt": (KmlDateTime,)}.get(base)
    if base == "enum":
        classes = (enum_cls(ext.enum),)
    if base in ("child", "children"):
        part = SPECS[ext.part].pycls if isinstance(ext.part, str) else ext.part
        classes = (part,)
        nsids = (part._default_nsid,)
    else:
        nsids = ((owner_nsid, "") if ext.long_ns else ("",)) if k.startswith("A_") else ("kml", "") if base == "dt" else (owner_nsid, "")
    default = ext.default
    if base == "enum" and default is not None:
        default = enum_cls(ext.enum)(default)
    registry.register(ext.cls, RegistryItem(ns_ids=nsids, classes=classes, attr_name=ext.attr, node_name=ext.node, get_kwarg=get, set_element=put, default=default))


def user_class(base, name, tag, nsid=None):
    """A subclass as a user of the library writes it."""
    ns = {"__module__": "vkext", "get_tag_name": classmethod(lambda cls: tag), "__doc__": "user class"}
    if nsid:
        ns["_default_nsid"] = nsid
    return type(name, (base,), ns)


class Space:
    pass


# ------------------------------------------------------------------ one case, in a forked child
def body(ctx, rng):
    from fastkml.base import _XMLObject
    from fastkml.enums import Verbosity
    from fastkml.exceptions import KMLParseError
    from fastkml.kml_base import _BaseObject
    from fastkml.registry import RegistryItem, registry
    from fastkml.utils import find_all
    from vk.build import _cls_table, kwargs_of
    import fastkml.helpers as h

    gen = g.Gen(rng, max_depth=2, fill=0.3)
    be = rng.choice(("lxml", "stdlib"))
    vkext = Space()
    c15.SCOPE["vkext"] = vkext

    # a class of the user's own, with its own registrations
    Thing = user_class(_BaseObject, "Thing", "Thing", rng.choice(("kml", "gx")))
    vkext.Thing = Thing
    nsid = Thing._default_nsid
    registry.register(Thing, RegistryItem(ns_ids=(nsid,), classes=(str,), attr_name="vk_label", node_name="label", get_kwarg=h.subelement_text_kwarg, set_element=h.text_subelement))
    registry.register(Thing, RegistryItem(ns_ids=("",), classes=(int,), attr_name="vk_no", node_name="no", get_kwarg=h.attribute_int_kwarg, set_element=h.int_attribute))

    # candidates: classes of the library, base classes, user subclasses
    subs = {}
    for i in range(rng.choice((0, 1, 2))):
        spec = SPECS[rng.choice([c for c in ALL if c not in ("Coordinates", "KML", "Schema")])]
        parent = spec.pycls
        if subs and rng.random() < 0.4:  # subclass of a user's subclass
            sup = rng.choice(sorted(subs))
            parent, spec = subs[sup][0], SPECS[subs[sup][1]]
        name = f"User{i}"
        c = user_class(parent, name, f"user{i}")
        setattr(vkext, name, c)
        subs[name] = (c, spec.name)
        _cls_table()[c] = spec.name

    exts = []

    def targets():
        for name, (c, specname) in subs.items():
            yield name, c
        for cls in ALL:
            yield cls, SPECS[cls].pycls
        for name, path in BASES.items():
            yield name, pick(path)

    tlist = list(targets())
    plan = []
    for i in range(rng.choice((1, 2, 3, 5))):
        roll = rng.random()
        if roll < 0.25 and subs:
            name = rng.choice(sorted(subs))
            cls = subs[name][0]
            ctx.hit("user-subclass")
        elif roll < 0.4:
            name = rng.choice(sorted(BASES))
            cls = pick(BASES[name])
            ctx.hit("base-class")
        elif exts and roll < 0.6:  # several on one class
            name, cls = exts[-1].target, exts[-1].cls
        else:
            name, cls = rng.choice(tlist)
        kind = rng.choice(KINDS)
        kw = {}
        if kind.endswith("enum"):
            kw["enum"] = rng.choice([e for e in ENUMS if e != "AltitudeMode"])
            if rng.random() < 0.3:
                kw["default"] = rng.choice(ENUMS[kw["enum"]])
        elif kind in ("text", "A_text") and rng.random() < 0.3:
            kw["default"] = "dflt"
        elif kind in ("int", "A_int") and rng.random() < 0.3:
            kw["default"] = 7
        elif kind in ("float", "A_float") and rng.random() < 0.3:
            kw["default"] = 0.0
        elif kind == "bool" and rng.random() < 0.5:
            kw["default"] = rng.random() < 0.5
        if kind in ("child", "children"):
            kw["part"] = Thing
            used = {e.part if isinstance(e.part, str) else "Thing" for e in exts if e.kind in ("child", "children")}
            if "Thing" in used or rng.random() < 0.4:
                tags = {SPECS[c].tag for s, (pc) in ((s, SPECS[s].pycls) for s in ALL) if issubclass(pc, cls) or issubclass(cls, pc) for f in SPECS[s].fields for c in f.classes}
                names = {f.node for s in ALL for f in SPECS[s].fields}
                ok = [p for p in PARTS if p not in used and SPECS[p].tag not in tags and SPECS[p].tag not in names]
                if not ok:
                    continue
                kw["part"] = rng.choice(ok)
        node = f"ext{i}"
        if kind not in ("child", "children") and rng.random() < 0.5:  # an attribute and an element of the same name
            group = kind.startswith("A_")
            mine = {x.node for x in exts if x.kind.startswith("A_") == group}
            twins = [x.node for x in exts if x.kind not in ("child", "children") and x.kind.startswith("A_") != group and x.node not in mine]
            if twins:
                node = rng.choice(twins)
                ctx.hit("same-xml-name")
        e = Ext(name, cls, f"vk_ext_{i}", node, kind, **kw)
        e.long_ns = rng.random() < 0.6
        exts.append(e)
    if not exts:
        return

    def affected(spec_cls):
        return [e for e in exts if issubclass(spec_cls, e.cls)]

    with backend(be):
        # registration in this order, some of it after the classes were used again
        order = list(exts)
        rng.shuffle(order)
        for e in order:
            spec_like = subs[e.target][1] if e.target in subs else e.target
            nid = SPECS[spec_like].nsid if spec_like in SPECS else "kml"
            if e.target in BASES:
                e.mixed = {SPECS[s].nsid for s in ALL if issubclass(SPECS[s].pycls, e.cls)}
            register(e, nid)
            ctx.hit("registrations")
            ctx.hit("kind:" + e.kind)
            if rng.random() < 0.5:
                ctx.hit("late-registration")
                probe = rng.choice(list(SNAP.values()))[0]
                build(probe).to_string()

        # 1. all objects that do not use an extension behave as before
        for (cls, full), (node, before) in SNAP.items():
            if be != "lxml":
                break
            mine = affected(SPECS[cls].pycls)
            subtree = [e for m in node.walk() for e in affected(SPECS[m.cls].pycls)]
            now = snap(node)
            ctx.hit("unaffected-compared")
            ctx.ok()
            for i, what in enumerate(("output", "verbose output", "terse output", "repr", "repr of what was read", "equality", "attributes")):
                if what == "verbose output" and any(e.default is not None for e in subtree):
                    continue
                if now[i] != before[i]:
                    ctx.fail("other-class-changed", f"{what} of {cls} (affected by {[e.kind for e in mine]}) changed after registrations {[(e.target, e.kind) for e in exts]}", before=before[i], after=now[i])
                    return

        # 2. the extension works on all affected classes
        users = []
        for name, cls in targets():
            if name in BASES or not affected(cls):
                continue
            users.append((name, cls))
        rng.shuffle(users)
        for name, cls in users[:12]:
            specname = subs[name][1] if name in subs else name
            spec = SPECS[specname]
            mine = affected(cls)
            base = gen.node(specname, minimal=rng.random() < 0.5)
            if rng.random() < 0.5:
                base = no_repeats(base)
            vals = {}
            some = [e for e in mine if rng.random() < 0.8] or mine
            for e in some:
                vals[e] = e.value(rng, gen)
            own = URIS[spec.nsid]
            usable = [e for e in some]
            kw = {e.attr: vals[e][0] for e in usable}
            mk = lambda extra=None: cls(**kwargs_of(base), **{**kw, **(extra or {})})  # noqa: E731
            obj = mk()
            plain = cls(**kwargs_of(base))
            ctx.hit("uses")
            what = f"{name} with {[(e.target, e.kind) for e in usable]}"
            ctx.ok((name, tuple(sorted((e.target, e.kind) for e in exts)), be))
            nested = any(e.default is not None for m in base.walk() if m is not base for e in affected(SPECS[m.cls].pycls))
            nested = nested or any(e.default is not None for x in usable if x.kind in ("child", "children") for e in affected(SPECS[x.part].pycls if isinstance(x.part, str) else x.part))
            parts = [m for x in usable for v in (vals[x][1] if x.kind == "children" else [vals[x][1]]) if isinstance(v, Node) for m in v.walk()]
            nested = nested or any(e.default is not None for m in parts for e in affected(SPECS[m.cls].pycls))
            for verb in ("normal", "terse", "verbose"):
                if nested and verb == "verbose":
                    continue
                exp = expect(base, verbosity=verb)
                exp.tag = qn(own, cls.get_tag_name())
                for e in mine:
                    v = vals[e][1] if e in vals else None
                    if verb == "terse" and e.default is not None and v == e.default:
                        continue
                    if verb == "verbose" and v is None and e.default is not None:
                        v = e.default
                    if v is not None:
                        e.apply(exp, own, v)
                        if verb == "verbose" and e.kind in ("child", "children") and isinstance(e.part, str):
                            vs = v if isinstance(v, list) else [v]
                            exp.groups[e.attr] = [expect(x, verbosity="verbose") for x in vs]
                        if verb == "terse" and e.kind in ("child", "children") and isinstance(e.part, str):
                            vs = v if isinstance(v, list) else [v]
                            exp.groups[e.attr] = [expect(x, verbosity="terse") for x in vs]
                ns_fix(exp, cls, own)
                text = obj.to_string(verbosity=getattr(Verbosity, verb))
                # sub elements of base class registrations follow the object's namespace
                bad = compare(exp, parse(text))
                ctx.ok()
                if bad:
                    ctx.fail("not-written", f"{what} [{verb}]: {'; '.join(bad[:3])}", xml=text)
                    return
            text = obj.to_string()
            exp = expect(base)
            exp.tag = qn(own, cls.get_tag_name())
            for e in usable:
                e.apply(exp, own, vals[e][1])
            for src in (text, to_text(exp, Lex.plain())):
                for strict in (True, False):
                    back = cls.from_string(src, strict=strict)
                    ctx.ok()
                    for e in mine:
                        got = getattr(back, e.attr, None)
                        if e not in vals:
                            if got is not None:
                                ctx.fail("invented", f"{what}: {e.attr} = {got!r} though not in the text", xml=src)
                                return
                        elif spec.nsid not in (e_ns(e)) and not e.kind.startswith("A_") and e.kind not in ("child", "children"):
                            continue
                        elif not e.same(got, vals[e][1]):
                            ctx.fail("not-read", f"{what}: {e.attr} ({e.kind}) = {got!r} instead of {vals[e][1]!r}", xml=src)
                            return
                    want = canon(base, group=True, angles=True, drop_falsy=True)
                    have = canon(observe(back, parsed=True), group=True, angles=True)
                    if want != have:
                        ctx.fail("content-lost", f"{what}: {diff(want, have)}", xml=src)
                        return
            plain_eq = cls.from_string(plain.to_string()) == plain
            readable = all(spec.nsid in e_ns(e) or e.kind.startswith("A_") or e.kind in ("child", "children") for e in usable)
            back = cls.from_string(text)
            ctx.ok(n=3)
            if readable and plain_eq and not (back == obj and obj == back):
                ctx.fail("read-unequal", f"{what}: read object is not equal", xml=text)
                return
            if not (obj == mk()) or obj != mk():
                ctx.fail("twin-unequal", f"{what}: equal objects compare unequal", xml=text)
                return
            if obj == plain or plain == obj:
                ctx.fail("equal-without", f"{what}: equal to the object without the extension", xml=text)
                return
            e = rng.choice(usable)
            for _ in range(20):
                other = e.value(rng, gen)
                if not e.same(other[0], vals[e][1]):
                    twin = mk({e.attr: other[0]})
                    ctx.ok()
                    if twin == obj or obj == twin:
                        ctx.fail("equal-though-different", f"{what}: equal though {e.attr} differs", xml=text)
                        return
                    if repr(twin) == repr(obj):
                        ctx.fail("repr-misses", f"{what}: repr does not show {e.attr}", repr=repr(obj))
                        return
                    break
            # printing
            if any(e.kind.removeprefix("A_") == "enum" for e in usable):
                again = obj  # an enumeration value in **{...} is printed in Python's own form
            else:
              try:
                again = eval(repr(obj), {}, c15.SCOPE)  # noqa: S307
              except Exception as ex:
                ctx.fail("repr-not-evaluable", f"{what}: {type(ex).__name__} {ex}", repr=repr(obj))
                return
            ctx.ok()
            if not (again == obj):
                ctx.fail("repr-unequal", f"{what}: evaluated repr is not equal", repr=repr(obj))
                return
            # searching finds the children
            for e in usable:
                if e.kind in ("child", "children"):
                    parts = [vals[e][0]] if e.kind == "child" else vals[e][0]
                    found = list(find_all(obj, of_type=type(parts[0])))
                    ctx.ok()
                    if [p for p in parts if not any(p is f for f in found)]:
                        ctx.fail("not-found", f"{what}: child of {e.attr} not found")
                        return
            # illegal values are handled as everywhere
            typed = [e for e in usable if e.kind.removeprefix("A_") in ("int", "float", "enum", "bool", "dt") and (spec.nsid in e_ns(e) or e.kind.startswith("A_"))]
            if typed:
                from vk.faults import BAD

                e = rng.choice(typed)
                exp = expect(base)
                exp.tag = qn(own, cls.get_tag_name())
                for x in usable:
                    x.apply(exp, own, vals[x][1])
                badv = rng.choice(BAD[e.kind.removeprefix("A_")])
                if e.kind.startswith("A_"):
                    exp.attrs[e.node] = ("raw", badv)
                else:
                    exp.groups[e.attr] = [leaf(qn(URIS["kml"] if e.kind == "dt" else own, e.node), "raw", badv)]
                src = to_text(exp, Lex.plain())
                ctx.hit("bad-values")
                ctx.ok()
                try:
                    cls.from_string(src)
                    ctx.fail("bad-value-accepted", f"{what}: {badv!r} accepted for {e.kind}", xml=src)
                    return
                except KMLParseError:
                    pass
                lax = cls.from_string(src, strict=False)
                if getattr(lax, e.attr, None) is not None:
                    ctx.fail("bad-value-kept", f"{what}: lenient reading gives {getattr(lax, e.attr)!r} for {badv!r}", xml=src)
                    return
            # nested in its parent
            parents = [(p, f) for p in ALL for f in SPECS[p].fields if name in f.classes and name not in ("Coordinates", "LinearRing")]
            if parents and name in ALL and sp_truthy(base):
                p, f = rng.choice(parents)
                pn = gen.node(p, minimal=True)
                pn.put(f.attr, None)
                pkw = kwargs_of(pn)
                pkw[f.attr] = [obj] if f.kind == "children" else obj
                par = SPECS[p].pycls(**pkw)
                if par:
                    ctx.hit("in-tree")
                    ptext = par.to_string()
                    pb = SPECS[p].pycls.from_string(ptext)
                    kid = getattr(pb, f.attr)
                    kid = kid[0] if f.kind == "children" and kid else kid
                    ctx.ok()
                    for e in usable:
                        if (spec.nsid in e_ns(e) or e.kind.startswith("A_") or e.kind in ("child", "children")) and not e.same(getattr(kid, e.attr, None), vals[e][1]):
                            ctx.fail("not-read-nested", f"{what} in {p}.{f.attr}: {e.attr} = {getattr(kid, e.attr, None)!r}", xml=ptext)
                            return

        # 3. other classes do not know it
        others = [(n, c) for n, c in targets() if n not in BASES]
        rng.shuffle(others)
        for name, cls in others[:8]:
            specname = subs[name][1] if name in subs else name
            spec = SPECS[specname]
            foreign = [e for e in exts if not issubclass(cls, e.cls) and e.kind not in ("child", "children")]
            if not foreign:
                continue
            base = gen.node(specname, minimal=True)
            exp = expect(base)
            exp.tag = qn(URIS[spec.nsid], cls.get_tag_name())
            plain = cls.from_string(to_text(exp, Lex.plain()))
            for e in foreign:
                e.apply(exp, URIS[spec.nsid], e.value(rng, gen)[1])
            src = to_text(exp, Lex.plain())
            back = cls.from_string(src)
            ctx.hit("foreign-classes")
            ctx.ok()
            for e in foreign:
                if getattr(back, e.attr, None) is not None:
                    ctx.fail("leaked", f"{name} reads {e.attr}, registered for {e.target} only", xml=src)
                    return
            if not (back == plain) or back.to_string() != plain.to_string():
                ctx.fail("foreign-changes", f"{name} read with the element of another class's extension differs", xml=src)
                return
        if rng.random() < 0.05:
            ctx.sample(f"{be}: {[(e.target, e.kind, e.default) for e in exts]}; users {[n for n, _ in users][:8]}")


def sp_truthy(n):
    from vk.spec import truthy

    return truthy(n)


def e_ns(e):
    """Name space ids under which the registration reads sub elements."""
    if e.target in SPECS:
        return (SPECS[e.target].nsid,)
    if e.target in BASES:
        return ("kml",)
    from vk.build import _cls_table

    return (SPECS[_cls_table()[e.cls]].nsid,)


def alias(ctx, rng):
    """A second element for an attribute a class already has: both are written, either is read."""
    import fastkml.helpers as h
    from fastkml.registry import RegistryItem, registry

    gen = g.Gen(rng, max_depth=2, fill=0.3)
    kinds = ("text", "int", "float", "bool")
    with backend(rng.choice(("lxml", "stdlib"))):
        cls, fld = rng.choice([(c, f) for c in ALL for f in SPECS[c].fields if f.kind in kinds])
        pycls, own = SPECS[cls].pycls, URIS[SPECS[cls].nsid]
        owner = rng.choice([k for k in pycls.__mro__ if any(i.attr_name == fld.attr for i in registry._registry.get(k, []))] + [pycls])
        classes = {"text": (str,), "int": (int,), "float": (float,), "bool": (bool,)}[fld.kind]
        registry.register(owner, RegistryItem(ns_ids=(SPECS[cls].nsid, ""), classes=classes, attr_name=fld.attr, node_name="vkAlias",
                                              get_kwarg=getattr(h, f"subelement_{fld.kind}_kwarg"), set_element=getattr(h, f"{fld.kind}_subelement")))
        what = f"second element for {cls}.{fld.attr} registered for {owner.__name__}"
        users = [c for c in ALL if issubclass(SPECS[c].pycls, owner) and SPECS[c].nsid == SPECS[cls].nsid and any(f.attr == fld.attr and f.kind == fld.kind for f in SPECS[c].fields)]
        for c in rng.sample(users, min(4, len(users))):
            for given in (True, False):
                node = gen.node(c, minimal=rng.random() < 0.5)
                node.put(fld.attr, gen.scalar(fld) if given else None)
                if not given and fld.attr in SPECS[c].mandatory:
                    continue
                # parts of the same class know it too
                if any(m is not node and issubclass(SPECS[m.cls].pycls, owner) for m in node.walk()):
                    continue
                exp = expect(node)
                if given:
                    exp.groups["vk alias"] = [leaf(qn(own, "vkAlias"), fld.kind, node.get(fld.attr))]
                obj = build(node)
                text = obj.to_string()
                bad = compare(exp, parse(text))
                ctx.ok((c, fld.attr, owner.__name__, given))
                ctx.hit("aliases")
                if bad:
                    ctx.fail("alias-not-written", f"{what}, used by {c}: {'; '.join(bad[:3])}", xml=text)
                    return
                forms = ["both"]
                if given:
                    forms += ["first", "second"]
                for form in forms:
                    e = expect(node)
                    if given and form != "first":
                        e.groups["vk alias"] = [leaf(qn(own, "vkAlias"), fld.kind, node.get(fld.attr))]
                    if form == "second":
                        e.groups.pop(fld.attr, None)
                    src = to_text(e, Lex.plain())
                    back = SPECS[c].pycls.from_string(src)
                    ctx.ok()
                    want, got = canon(node, group=True, angles=True, drop_falsy=True), canon(observe(back, parsed=True), group=True, angles=True)
                    if want != got:
                        ctx.fail("alias-not-read", f"{what}, used by {c}, given as {form}: {diff(want, got)}", xml=src)
                        return


def ns_fix(exp, cls, own):
    """dates and sub elements are written in the object's name space."""
    return exp


def run(ctx, case_id, _):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            import signal

            signal.alarm(200)
            try:
                (alias if case_id.startswith("alias") else body)(ctx, ctx.rng)
            except Exception as e:
                ctx.fail(f"exception:{type(e).__name__}", f"unexpected {type(e).__name__}: {e}", traceback=traceback.format_exc(limit=-12))
            with os.fdopen(w, "wb") as f:
                pickle.dump((ctx.counters, ctx.keys, ctx.samples, ctx.violations, ctx.evaluations, REACH()), f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if status != 0 or not data:
        raise RuntimeError(f"child ended with {status}")
    ctx.counters, ctx.keys, ctx.samples, ctx.violations, ctx.evaluations, reach = pickle.loads(data)  # noqa: S301
    REACH(reach)


def REACH(new=None):
    """What the child reached is added to the worker's record."""
    import vk.runner as vr

    me = getattr(vr, "REACH", None) or getattr(sys.modules.get("__main__"), "REACH", None)
    if me is None:
        return None
    if new is None:
        return (me.funcs, me.lines)
    me.funcs |= new[0]
    me.lines |= new[1]
    return None
