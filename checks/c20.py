"""C20: namespaces are honoured on reading and writing."""

import io

from vk.build import NS_BY_MAP
from vk.common import *
from vk.refxml import Exp, short
from vk.spec import ATOMURI, GXURI, KMLURI, truthy
from vk.xmltext import Lex, to_text

RULE = ("every class and random documents are spelled in the known and other KML, gx and Atom namespaces (by root element, by the caller, or without one) under random prefix bindings, read, and written back; every written element's namespace is compared with a reference; "
        "random elements are moved to a foreign namespace and must be read as if they were absent; objects are built for a namespace, also from geometries; non-trivial: distinct (text, way of reading)")
NEED = {"read:root": 200, "read:caller": 500, "read:ns-only": 200, "read:none": 200, "foreign": 500, "written": 1500, "built": 500, "geometry": 100, "mixed-case-prefix": 200, "unnamespaced-written": 100}
ASSUMPTIONS = ["times, altitude modes and geometries are accepted in the KML as well as in the Google extension namespace (existing behaviour)",
               "without a namespace the KML elements of a snippet are read, not the gx and Atom ones; a kml root element always has one"]
KMLS = ("http://www.opengis.net/kml/2.2", "http://earth.google.com/kml/2.0", "http://earth.google.com/kml/2.1", "http://earth.google.com/kml/2.2", "http://www.opengis.net/kml/2.3",
        "http://schemas.opengis.net/kml/2.2.0/", "urn:x-kml", "http://example.com/kml")
GXS = (GXURI, GXURI, GXURI, "http://www.google.com/kml/ext/2.3", "urn:gx")
ATOMS = (ATOMURI, ATOMURI, ATOMURI, "urn:atom")
FOREIGN = ("http://example.com/other", "http://earth.google.com/kml/1.0", "urn:x", "http://www.w3.org/1999/xhtml")
EITHER = {"enum", "dt"}


def cases(tier, seed):
    yield from sweep_cases(seed, lambda label, n: label[0] in ("min", "full", "child", "children", "mixed"))
    yield from random_cases(12000 if tier == "quick" else 80000)


def rename(e: Exp, m):
    """The expectation with other namespace uris (m: uri -> uri)."""
    u, _, local = e.tag[1:].partition("}") if e.tag.startswith("{") else ("", "", e.tag)
    v = m.get(u, u)
    e.tag = f"{{{v}}}{local}" if v else local
    for grp in e.groups.values():
        for c in grp:
            rename(c, m)
    return e


def nodes(e, path=()):
    for name, grp in e.groups.items():
        for i, c in enumerate(grp):
            yield e, name, i, c
            yield from nodes(c)


def only_kml(n: Node):
    """Without the parts that live in the gx and Atom namespaces."""
    n = n.copy()
    if SPECS[n.cls].nsid != "kml":
        return None
    for fld in SPECS[n.cls].fields:
        v = n.get(fld.attr)
        if v is None:
            continue
        if fld.kind == "child":
            n.put(fld.attr, only_kml(v))
        elif fld.kind == "children":
            n.put(fld.attr, [x for x in (only_kml(y) for y in v) if x is not None])
        elif fld.enum == "AltitudeMode" and v in ("clampToSeaFloor", "relativeToSeaFloor"):
            n.put(fld.attr, "absolute")
    return n


def check_read(ctx, obj, node, text, how):
    want = canon(node, group=True, angles=True, drop_falsy=True)
    got = canon(observe(obj, parsed=True), group=True, angles=True)
    ctx.ok((text, how))
    if got != want:
        ctx.fail(f"not-read:{how}", f"{diff(want, got)}", xml=text)
        return False
    return True


def ns_tree(el, acc=None):
    acc = set() if acc is None else acc
    acc.add(el.tag[1:].partition("}")[0] if el.tag.startswith("{") else "")
    for c in el:
        ns_tree(c, acc)
    return acc


def run(ctx, case_id, node):
    from fastkml.enums import Verbosity

    rng = ctx.rng
    if node is None:
        node = tree(rng)
    cls = SPECS[node.cls].pycls
    nsid = SPECS[node.cls].nsid
    uris = {"kml": rng.choice(KMLS), "gx": rng.choice(GXS), "atom": rng.choice(ATOMS)}
    nskw = {k: f"{{{v}}}" for k, v in uris.items()}
    standard = {"gx": GXURI, "atom": ATOMURI}
    lex = Lex.random(rng)
    strict = rng.random() < 0.5
    verb = rng.choice(("normal", "terse", "verbose"))
    with backend(rng.choice(("lxml", "stdlib"))):
        # ---- given by the root element
        if node.cls == "KML":
            m = {"kml": uris["kml"], **standard}
            text = to_text(expect(node, nskw={k: f"{{{v}}}" for k, v in m.items()}), lex)
            obj = cls.parse(io.BytesIO(text.encode()), strict=strict, validate=False)
            ctx.hit("read:root")
            if not check_read(ctx, obj, node, text, "root"):
                return
            back(ctx, obj, node, m, verb, "root")
            obj = cls.parse(io.StringIO(text), ns=nskw["kml"], strict=strict, validate=False)
            if not check_read(ctx, obj, node, text, "root-and-caller"):
                return
        # ---- given by the caller
        text = to_text(expect(node, nskw=nskw), lex)
        if lex.prefixes in ("odd", "default_gx"):
            ctx.hit("mixed-case-prefix")
        given = dict(nskw)
        obj = cls.from_string(text, ns=rng.choice((None, nskw[nsid])), name_spaces=given, strict=strict)
        ctx.hit("read:caller")
        if not check_read(ctx, obj, node, text, "caller"):
            return
        if given != nskw:
            ctx.fail("argument-changed", f"name_spaces became {given}")
        back(ctx, obj, node, uris, verb, "caller")
        if obj.ns != nskw[nsid]:
            ctx.fail("ns-attribute", f"read object's ns is {obj.ns!r}")
        # ---- only ns given: names the namespace of the class' own vocabulary
        part = node if nsid != "kml" else node
        m = {"kml": KMLURI, **standard, nsid: uris[nsid]}
        text = to_text(expect(part, nskw={k: f"{{{v}}}" for k, v in m.items()}), lex)
        obj = cls.from_string(text, ns=nskw[nsid], strict=strict)
        ctx.hit("read:ns-only")
        if not check_read(ctx, obj, part, text, "ns-only"):
            return
        back(ctx, obj, part, m, verb, "ns-only")
        # ---- no namespace at all
        if nsid == "kml" and node.cls != "KML":
            bare = only_kml(node)
            text = to_text(rename(expect(bare), {KMLURI: ""}), lex)
            for ns in (None, ""):
                obj = cls.from_string(text, strict=strict) if ns is None else cls.from_string(text, ns="", strict=strict)
                ctx.hit("read:none")
                if not check_read(ctx, obj, bare, text, "none"):
                    return
            # read without a namespace: written without one
            el = parse(obj.to_string())
            for x in el.iter():  # times and altitude modes may have one
                if short(x.tag) in ("altitudeMode", "when", "begin", "end", "expires"):
                    x.tag = short(x.tag)
            ctx.hit("unnamespaced-written")
            ctx.ok()
            bad = compare(rename(expect(observe(obj)), {KMLURI: ""}), el)
            if bad:
                ctx.fail("written:none", "; ".join(bad[:3]), xml=text, output=obj.to_string())
                return
        # ---- elements in a foreign namespace are not taken for the known ones
        exp = expect(node, nskw=nskw)
        places = [p for p in nodes(exp)]
        if places:
            # the model with the moved element removed is what reading must give: compare with reading the text without it
            par, name, i, c = rng.choice(places)
            loc = short(c.tag)
            track = loc in ("when", "coord", "angles")
            fu = rng.choice(FOREIGN + tuple(u for u in KMLS if u != uris["kml"]))
            if rng.random() < 0.3 and not track:
                here = c.tag[1:].partition("}")[0]
                cand = [uris["atom"]] if here == uris["kml"] else [uris["kml"]] if here == uris["atom"] else []
                if here == uris["kml"] and (c.text is None or c.text[0] not in EITHER) and loc not in ("Point", "LineString", "LinearRing", "Polygon", "MultiGeometry", "Model"):
                    cand.append(uris["gx"])
                if cand:
                    fu = rng.choice(cand)
            if not (fu == uris["atom"] and loc in ("name", "uri", "email", "author", "link", "contributor")) and not (fu == uris["kml"]):
                if not track or True:
                    grp = par.groups[name]
                    gone = Exp(par.tag)
                    moved = Exp(f"{{{fu}}}{loc}")
                    moved.attrs, moved.text, moved.groups = c.attrs, c.text, c.groups
                    if rng.random() < 0.3:
                        rename_all(moved, fu)
                    par.groups[name] = grp[:i] + [moved] + grp[i + 1:]
                    mtext = to_text(exp, lex)
                    par.groups[name] = grp[:i] + grp[i + 1:]
                    rtext = to_text(exp, Lex.plain())
                    a = outcome(lambda: cls.from_string(mtext, name_spaces=nskw, strict=False))
                    b = outcome(lambda: cls.from_string(rtext, name_spaces=nskw, strict=False))
                    ctx.hit("foreign")
                    ctx.ok((mtext, "foreign"))
                    if a != b:
                        d = diff(b[1], a[1]) if a[0] == b[0] == "ok" else f"{a} instead of {b}"
                        ctx.fail("foreign-taken", f"{loc} in {fu} changed what was read: {d}", xml=mtext, without=rtext)
                        return
        # ---- objects built for a namespace
        NS_BY_MAP[0] = rng.random() < 0.5
        try:
            obj = build(node, nskw)
        finally:
            NS_BY_MAP[0] = False
        ctx.hit("built")
        back(ctx, obj, node, uris, verb, "built")
        if any(getattr(o, "name_spaces", nskw) != nskw for _, o in pairs(node, obj)):
            ctx.fail("name-spaces-attribute", "a part does not hold the name spaces it was built for", model=node)
        geometry(ctx, rng, uris, nskw)
    if rng.random() < 0.01:
        ctx.sample(text[:700])


def rename_all(e, u):
    e.tag = f"{{{u}}}{short(e.tag)}"
    for grp in e.groups.values():
        for c in grp:
            rename_all(c, u)


def outcome(f):
    try:
        return ("ok", canon(observe(f(), parsed=True), group=True, angles=True))
    except Exception as e:
        return (type(e).__name__, "")


def back(ctx, obj, node, uris, verb, how):
    """Everything is written in the namespaces it was read or built in."""
    from fastkml.enums import Verbosity

    text = obj.to_string(verbosity=getattr(Verbosity, verb))
    model = observe(obj)
    bad = compare(expect(model, verbosity=verb, nskw={k: f"{{{v}}}" for k, v in uris.items()}), parse(text))
    ctx.hit("written")
    ctx.ok()
    if bad:
        ctx.fail(f"written:{how}", f"[{verb}] " + "; ".join(bad[:3]), output=text, uris=uris)
        return False
    extra = ns_tree(parse(text)) - set(uris.values())
    if extra:
        ctx.fail(f"written:{how}", f"elements in {extra}", output=text)
    return True


GEOS = ("Point (1 2)", "LineString (1 2, 3 4)", "LinearRing (0 0, 1 0, 1 1, 0 0)", "Polygon ((0 0, 9 0, 9 9, 0 0), (2 1, 3 1, 3 2, 2 1))", "MultiPoint (1 2, 3 4)",
        "MultiLineString ((1 2, 3 4), (5 6, 7 8))", "MultiPolygon (((0 0, 9 0, 9 9, 0 0)), ((20 20, 29 20, 29 29, 20 20)))",
        "GeometryCollection (Point (1 2), LineString (1 2, 3 4), GeometryCollection (Point (5 6)))")


def geometry(ctx, rng, uris, nskw):
    import pygeoif
    from fastkml.containers import Document
    from fastkml.features import Placemark
    from fastkml.geometry import create_kml_geometry
    import fastkml.geometry as fg

    geom = pygeoif.from_wkt(rng.choice(GEOS[:7])) if rng.random() < 0.7 else pygeoif.GeometryCollection([pygeoif.Point(1, 2), pygeoif.LineString([(1, 2), (3, 4)]), pygeoif.GeometryCollection([pygeoif.Point(5, 6)])])
    kind = rng.choice(("create", "placemark", "direct"))
    if kind == "create":
        obj = create_kml_geometry(geom, ns=nskw["kml"], name_spaces=nskw)
    elif kind == "placemark":
        obj = Placemark(ns=nskw["kml"], name_spaces=nskw, name="n", geometry=geom)
    else:
        cls = {"Point": fg.Point, "LineString": fg.LineString, "LinearRing": fg.LinearRing, "Polygon": fg.Polygon}.get(geom.geom_type, fg.MultiGeometry)
        obj = cls(ns=nskw["kml"], name_spaces=nskw, geometry=geom, extrude=True) if cls is not fg.MultiGeometry else cls(ns=nskw["kml"], name_spaces=nskw, geometry=geom)
    text = obj.to_string()
    ctx.hit("geometry")
    ctx.ok()
    extra = ns_tree(parse(text)) - {uris["kml"]}
    if extra:
        ctx.fail(f"geometry:{kind}", f"{geom.geom_type} built for {uris['kml']} writes elements in {extra}", output=text)
    # text, lists of data and the like with only ns given
    doc = Document(ns=nskw["kml"], name="n", description="d", visibility=True)
    extra = ns_tree(parse(doc.to_string())) - {uris["kml"]}
    ctx.ok()
    if extra:
        ctx.fail("ns-only", f"Document built with ns {uris['kml']} writes elements in {extra}")
