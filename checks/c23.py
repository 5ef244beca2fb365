"""C23: shortcut arguments and accessors agree with the content they stand for."""

from vk.build import kwargs_of, mk_dt, mk_items
from vk.common import *
from vk.spec import truthy
from vk.xmltext import model_text

RULE = ("every object of random trees, built, read by either XML library or edited, is asked for its shortcut accessors (icon_href, normal, highlight, geometry of models, locations, placemarks and their parts, whens, coords, angles, time_stamp, begin, end, truth value) "
        "and the answers are held against its content; objects made with shortcut arguments (icon_href, geometry, whens/coords/angles) or with lists given as other iterables are compared with those made the long way; non-trivial: distinct (accessor, content)")
NEED = {"icon_href": 300, "pairs": 200, "pairs:absent": 30, "pairs:repeated": 60, "model": 200, "location": 300, "location:partial": 60, "placemark": 300, "track": 200, "times": 500, "truth": 10000, "truth:false": 300,
        "short:icon_href": 150, "short:geometry": 200, "short:placemark": 150, "short:track": 150, "iterable:generator": 300, "iterable:tuple": 300, "state:built": 300, "state:read": 300, "state:edited": 300}
ASSUMPTIONS = ["an incomplete icon or location counts as none", "positions repeated in a row are one position of a geometry"]


def cases(tier, seed):
    yield from random_cases(24000 if tier == "quick" else 120000, "tree")
    yield from random_cases(12000 if tier == "quick" else 60000, "focus")
    yield from random_cases(8000 if tier == "quick" else 40000, "short")
    yield from random_cases(8000 if tier == "quick" else 40000, "iter")


def pairs(obj, node):
    out = [(obj, node)]
    for k, v in node.f.items():
        if isinstance(v, Node):
            out += pairs(getattr(obj, k), v)
        elif isinstance(v, list) and v and isinstance(v[0], Node):
            for o, m in zip(getattr(obj, k), v):
                out += pairs(o, m)
    return out


def positions(geom):
    """The positions of a geometry, without repeats."""
    t = geom.geom_type
    if t == "Polygon":
        return (t, tuple(positions(r) for r in (geom.exterior, *geom.interiors)))
    if t.startswith("Multi") or t == "GeometryCollection":
        return ("multi", tuple(positions(x) for x in geom.geoms))
    c = list(geom.coords)
    c = [tuple(map(float, p)) for i, p in enumerate(c) if i == 0 or p != c[i - 1]]
    if t == "LinearRing" and len(c) > 1 and c[0] == c[-1]:
        c.pop()
    return (t, tuple(c))


def wanted(n):
    """The positions the content of a (complete) geometry node says."""
    if n.cls in ("Point", "LineString", "LinearRing"):
        c = n.f["kml_coordinates"].f["coords"]
        c = [tuple(map(float, p)) for i, p in enumerate(c) if i == 0 or p != c[i - 1]]
        if n.cls == "LinearRing" and len(c) > 1 and c[0] == c[-1]:
            c.pop()
        return (n.cls, tuple(c))
    if n.cls == "Polygon":
        rings = [n.f["outer_boundary"], *n.get("inner_boundaries", [])]
        return ("Polygon", tuple(wanted(b.f["kml_geometry"]) for b in rings if truthy(b)))
    if n.cls == "MultiGeometry":
        return ("multi", tuple(wanted(x) for x in n.f["kml_geometries"] if truthy(x)))
    raise AssertionError(n.cls)


def regular(n):
    """Positions of one dimension, enough of them for pygeoif's geometry to exist."""
    for m in n.walk():
        if m.cls in ("Point", "LineString", "LinearRing"):
            c = m.get("kml_coordinates") and m.f["kml_coordinates"].get("coords")
            if not c or len({len(p) for p in c}) != 1 or (m.cls == "Point" and len(c) != 1):
                return False
            if m.cls == "LinearRing" and len(set(c)) < 3:
                return False
            if m.cls == "LineString" and len(set(c)) < 2:
                return False
    return True


def look(ctx, o, n, what):
    """Hold all accessors of one object against its content."""
    def bad(acc, got, want):
        ctx.fail(f"{acc}-differs", f"[{what}] {n.cls}.{acc} is {got!r} instead of {want!r}"[:900], model=n)

    ctx.ok(n=2)
    ctx.hit("truth")
    t = truthy(n)
    if not t:
        ctx.hit("truth:false")
    if bool(o) is not t:
        bad("truth", bool(o), t)
    if n.cls == "IconStyle":
        ctx.hit("icon_href")
        ic = n.get("icon")
        want = ic.get("href") if ic is not None else None
        ctx.distinct(("icon_href", want))
        if o.icon_href != want:
            bad("icon_href", o.icon_href, want)
    elif n.cls == "StyleMap":
        ctx.hit("pairs")
        ps = n.get("pairs", [])
        for key in ("normal", "highlight"):
            idx = [i for i, p in enumerate(ps) if p.get("key") == key]
            ctx.hit("pairs:repeated", len(idx) > 1)
            ctx.hit("pairs:absent", not idx)
            ctx.distinct((key, [(p.get("key"), repr(p.get("style"))[:60]) for p in ps]))
            want = o.pairs[idx[0]].style if idx else None
            got = getattr(o, key)
            if got is not want:
                bad(key, got, want)
    elif n.cls in ("Location", "Model"):
        loc = n if n.cls == "Location" else n.get("location")
        ctx.hit(n.cls.lower())
        if loc is not None and not truthy(loc):
            ctx.hit("location:partial")
        want = None
        if loc is not None and truthy(loc):
            want = [loc.f["longitude"], loc.f["latitude"]]
            if loc.get("altitude") is not None:
                want.append(loc.f["altitude"])
            want = tuple(map(float, want))
        got = o.geometry
        ctx.distinct((n.cls, want))
        if (got is None) != (want is None) or (got is not None and (got.geom_type != "Point" or tuple(got.coords[0]) != want)):
            bad("geometry", got, want)
    elif n.cls == "Track":
        ctx.hit("track")
        its = n.get("track_items", [])
        want = tuple(mk_dt(w) for w, _, _ in its)
        if tuple(o.whens) != want:
            bad("whens", o.whens, want)
        want = tuple(tuple(map(float, c)) for _, c, _ in its)
        if tuple(o.coords) != want:
            bad("coords", o.coords, want)
        want = tuple(tuple(a or (0.0, 0.0, 0.0)) for _, _, a in its) if any(a is not None for _, _, a in its) else ()
        if tuple(o.angles) != want:
            bad("angles", o.angles, want)
        ctx.distinct(("track", repr(its)))
    elif n.cls == "MultiTrack":
        want = [[tuple(map(float, c)) for _, c, _ in t.get("track_items", [])] for t in n.get("tracks", [])]
        want = [w for w in want if w]
        if all(len({len(c) for c in w}) == 1 for w in want) and len({len(w[0]) for w in want}) < 2:
            ctx.hit("multitrack", bool(want))
            got = [[tuple(c) for c in x.coords] for x in o.geometry.geoms] if want else []
            if got != want:
                bad("geometry", got, want)
    elif n.cls == "Placemark":
        ctx.hit("placemark")
        kg = n.get("kml_geometry")
        got = o.geometry
        if kg is None:
            if got is not None:
                bad("geometry", got, None)
        elif repr(got) != repr(o.kml_geometry.geometry):
            bad("geometry", got, o.kml_geometry.geometry)
    if n.cls in ("Point", "LineString", "LinearRing", "Polygon", "MultiGeometry") and t and regular(n):
        want = wanted(n)
        got = o.geometry
        ctx.hit("geometry")
        ctx.distinct(("geometry", want))
        if got is None or positions(got) != want:
            bad("geometry", got, want)
    if "times" in SPECS[n.cls].by_attr:
        ctx.hit("times")
        ts = n.get("times")
        want = {"time_stamp": None, "begin": None, "end": None}
        if ts is not None and ts.cls == "TimeStamp":
            want["time_stamp"] = ts.get("timestamp")
        elif ts is not None:
            want.update(begin=ts.get("begin"), end=ts.get("end"))
        for k, w in want.items():
            w = w and mk_dt(w)
            if getattr(o, k) != w:
                bad(k, getattr(o, k), w)


FOCUS = ("IconStyle", "StyleMap", "Model", "Location", "Track", "MultiTrack", "Placemark", "Polygon", "MultiGeometry", "Orientation", "Scale", "Alias", "ResourceMap", "Lod", "LatLonAltBox", "LatLonBox", "Region", "ViewVolume", "ImagePyramid",
         "OverlayXY", "Size", "Data", "SimpleData", "SchemaData", "ExtendedData", "SimpleField", "Author", "AtomLink", "Link", "Icon", "Snippet", "StyleUrl", "LineStyle", "PolyStyle", "LabelStyle", "BalloonStyle", "Style", "Pair", "TimeStamp", "TimeSpan", "NetworkLink")


def incomplete(rng, node):
    """Take mandatory content away, here and there."""
    for m in list(node.walk()):
        for attr in SPECS[m.cls].mandatory:
            if rng.random() < 0.15 and attr in m.f and (m.cls, attr) != ("Schema", "id"):
                m.put(attr, None)
    return node


def focus(rng):
    gen = g.Gen(rng, fill=rng.choice((0.0, 0.3, 0.7)), max_depth=3)
    cls = rng.choice(FOCUS[:8] if rng.random() < 0.6 else FOCUS)
    n = gen.node(cls)
    if cls == "StyleMap":
        n.f["pairs"] = [gen.node("Pair") for _ in range(rng.randrange(1, 5))]
    if rng.random() < 0.4:
        n = incomplete(rng, n)
    return n


def run_tree(ctx, rng, node):
    state = rng.choice(("built", "read", "edited"))
    with backend(rng.choice(("lxml", "stdlib"))):
        if state == "read":
            if not truthy(node):
                state = "built"
        if state == "built":
            obj = build(node)
        elif state == "read":
            obj = SPECS[node.cls].pycls.from_string(model_text(node))
        else:
            # assigned after construction
            py = SPECS[node.cls].pycls
            obj = py(id="x") if node.cls == "Schema" else py()
            look(ctx, obj, observe(obj), "empty")
            for k, v in kwargs_of(node).items():
                setattr(obj, k, v)
        ctx.hit("state:" + state)
        for o, n in pairs(obj, observe(obj)):
            look(ctx, o, n, state)


def same(ctx, a, b, what):
    ctx.ok(n=2)
    ca, cb = canon(observe(a)), canon(observe(b))
    if ca != cb or not (a == b):
        ctx.fail("shortcut-differs", f"{what}: {diff(cb, ca) if ca != cb else 'unequal'}", short=repr(a), long=repr(b))
    elif a.to_string() != b.to_string():
        ctx.fail("shortcut-output-differs", f"{what}: output differs", short=a.to_string(), long=b.to_string())


def run_short(ctx, rng):
    import pygeoif.geometry as geo
    from fastkml import Placemark, geometry as kg
    from fastkml.gx import Track
    from fastkml.links import Icon
    from fastkml.styles import IconStyle

    gen = g.Gen(rng, fill=0.4, max_depth=2)
    full = {"kml": "{http://ex.org/kml}", "gx": "{http://ex.org/gx}"}
    nskw = rng.choice(({}, {}, {"ns": full["kml"], "name_spaces": full}))
    kind = rng.choice(("icon_href", "geometry", "placemark", "track"))
    ctx.hit("short:" + kind)
    if kind == "icon_href":
        u, v = gen.text("uri"), gen.text("uri")
        rest = kwargs_of(gen.node("LabelStyle"))
        rest.pop("icon", None)
        same(ctx, IconStyle(icon_href=u, **rest, **nskw), IconStyle(icon=Icon(href=u, **nskw), **rest, **nskw), f"icon_href={u!r}")
        both = IconStyle(icon_href=u, icon=Icon(href=v))
        ctx.ok((u, v))
        if both.icon_href != v or both.icon.href != v:
            ctx.fail("icon-not-kept", f"icon {v!r} and icon_href {u!r}: {both.icon!r}")
        return
    if kind == "track":
        its = gen.track_items()
        if rng.random() < 0.6:
            its = [(w, c, a or (0.0, 0.0, 0.0)) for w, c, a in its]
        rest = kwargs_of(gen.node("Track"))
        rest.pop("track_items", None)
        ang = [a for _, _, a in its]
        if any(a is None for a in ang):
            its, ang = [(w, c, (0.0, 0.0, 0.0)) for w, c, _ in its], []
        wrap = rng.choice((list, tuple, iter))
        a = Track(whens=wrap([mk_dt(w) for w, _, _ in its]), coords=wrap([c for _, c, _ in its]), angles=wrap(ang), **rest)
        b = Track(track_items=mk_items(its), **rest)
        ctx.distinct(repr(its))
        same(ctx, a, b, "whens, coords, angles")
        return
    c = [p[:2] if rng.random() < 0 else p for p in gen.coords("LineString")]
    c = [p for i, p in enumerate(c) if i == 0 or p != c[i - 1]]
    if len(c) < 3:
        c = [(float(i), float(i * i), *(0.5,) * (len(c[0]) - 2)) for i in range(4)]
    ring = [*c, c[0]]
    flags = {}
    if rng.random() < 0.6:
        from fastkml.enums import AltitudeMode

        flags = {"extrude": rng.choice((True, False, None)), "altitude_mode": rng.choice((*AltitudeMode, None))}
    pt, ls, lr, po = geo.Point(*c[0]), geo.LineString(c), geo.LinearRing(ring), geo.Polygon(ring, [ring])
    short = {
        "Point": (kg.Point(geometry=pt, **flags, **nskw), kg.Point(kml_coordinates=kg.Coordinates(coords=[c[0]], **nskw), **flags, **nskw)),
        "LineString": (kg.LineString(geometry=ls, **flags, **nskw), kg.LineString(kml_coordinates=kg.Coordinates(coords=c, **nskw), **flags, **nskw)),
        "LinearRing": (kg.LinearRing(geometry=lr, **flags, **nskw), kg.LinearRing(kml_coordinates=kg.Coordinates(coords=lr.coords, **nskw), **flags, **nskw)),
        "Polygon": (kg.Polygon(geometry=po, **flags, **nskw), kg.Polygon(
            outer_boundary=kg.OuterBoundaryIs(kml_geometry=kg.LinearRing(geometry=lr, **nskw), **nskw),
            inner_boundaries=[kg.InnerBoundaryIs(geometry=lr, **nskw)], **flags, **nskw)),
        "Multi": (kg.MultiGeometry(geometry=geo.GeometryCollection([pt, ls]), **flags, **nskw), kg.MultiGeometry(
            kml_geometries=[kg.Point(geometry=pt, **flags, **nskw), kg.LineString(geometry=ls, **flags, **nskw)], **nskw)),
    }
    which = rng.choice(sorted(short))
    ctx.distinct((which, repr(c)))
    if kind == "geometry":
        same(ctx, *short[which], f"{which}(geometry=...)")
    else:
        gm = {"Point": pt, "LineString": ls, "LinearRing": lr, "Polygon": po, "Multi": geo.GeometryCollection([pt, ls])}[which]
        rest = kwargs_of(gen.node("Snippet")) and {"name": gen.text()}
        a = Placemark(geometry=gm, **rest, **nskw)
        b = Placemark(kml_geometry=kg.create_kml_geometry(gm, **nskw), **rest, **nskw)
        same(ctx, a, b, f"Placemark(geometry={which})")
        if repr(a.geometry) != repr(b.geometry) or positions(a.geometry) != positions(gm):
            ctx.fail("geometry-differs", f"Placemark(geometry={gm!r}).geometry is {a.geometry!r}")


def run_iter(ctx, rng):
    """List arguments may be any iterable."""
    gen = g.Gen(rng, fill=0.5, max_depth=2)
    cls = rng.choice([c for c in ALL if any(f.kind in ("children", "track", "coords") for f in SPECS[c].fields)])
    n = gen.node(cls, full=rng.random() < 0.5)
    how = rng.choice(("generator", "tuple", "iterator"))
    ctx.hit("iterable:" + how)
    wrap = {"generator": lambda v: (x for x in v), "tuple": tuple, "iterator": lambda v: iter(list(v))}[how]
    kw = kwargs_of(n)
    lists = [k for k, v in kw.items() if isinstance(v, list)]
    py = SPECS[cls].pycls
    want = py(**kw)
    ctx.distinct((cls, how, repr(n)[:300]))
    same(ctx, py(**{k: (wrap(v) if k in lists else v) for k, v in kwargs_of(n).items()}), want, f"{cls} with {how} arguments {lists}")


def run(ctx, case_id, payload):
    kind = case_id.partition(":")[0]
    rng = ctx.rng
    if kind == "tree":
        run_tree(ctx, rng, tree(rng))
    elif kind == "focus":
        run_tree(ctx, rng, focus(rng))
    elif kind == "short":
        run_short(ctx, rng)
    else:
        run_iter(ctx, rng)
