"""C08: geometries convert to KML and back without change."""

from vk.common import *

RULE = ("random geometries (2D and 3D, up to thousands of positions, dozens of holes and parts, nested collections) given as pygeoif, shapely and geo-interface objects and dictionaries are converted to KML objects; "
        "structure, options and positions are compared with a model, .geometry before and after writing and reading with the original; non-trivial: distinct geometry")
NEED = {"src:pygeoif": 300, "src:shapely": 300, "src:dict": 100, "src:object": 100, "read-back": 500, "type:Polygon": 50, "type:MultiPolygon": 50, "type:GeometryCollection": 50,
        "holes": 50, "rejected": 50}
ASSUMPTIONS = ["a collection whose parts are all points, lines or polygons comes back as the multi geometry of that type (existing behaviour)",
               "reading groups the parts of a mixed collection by kind (existing behaviour, pinned by tests)",
               "positions of one geometry all have the same dimension and consecutive ones differ (pygeoif drops repeated positions)"]
TYPES = ("Point", "LineString", "LinearRing", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon", "GeometryCollection")


def num(r):
    k = r.randrange(6)
    if k == 0:
        return float(r.randint(-180, 180))
    if k == 1:
        return r.choice((0.0, -0.0, 1e-9, 1e15, 1 / 3, 0.1, 179.99999999999997, -1e-300, 1e17))
    return r.uniform(-180, 180)


def pt(r, dim):
    return tuple(num(r) for _ in range(dim))


def line(r, dim, lo=2):
    n = r.choice((lo, lo + 1, r.randint(lo, 12), r.randint(lo, 40)))
    if r.random() < 0.01:
        n = r.randint(200, 1500)
    pts = [pt(r, dim) for _ in range(n)]
    if n > 3 and r.random() < 0.2:
        pts[3] = pts[1]  # a position may come again, but not directly
    for i in range(1, n):
        while pts[i] == pts[i - 1]:
            pts[i] = pt(r, dim)
    if n > 2 and r.random() < 0.15 and pts[0] != pts[-2]:
        pts[-1] = pts[0]  # a closed line is still a line
    return pts


def ring(r, dim):
    pts = line(r, dim, 3)
    while pts[-1] in (pts[0], pts[-2]):
        pts[-1] = pt(r, dim)
    return [*pts, pts[0]]


def poly(r, dim):
    holes = [ring(r, dim) for _ in range(r.choice((0, 0, 1, 2, r.randint(0, 12))))]
    return (ring(r, dim), holes)


def make(r, depth=0, types=TYPES):
    t = r.choice(types)
    dim = r.choice((2, 3))
    many = r.choice((1, 2, 3, r.randint(1, 15)))
    if t == "Point":
        return (t, pt(r, dim))
    if t == "LineString":
        return (t, line(r, dim))
    if t == "LinearRing":
        return (t, ring(r, dim))
    if t == "Polygon":
        return (t, poly(r, dim))
    if t == "MultiPoint":
        return (t, [pt(r, dim) for _ in range(many)])
    if t == "MultiLineString":
        return (t, [line(r, dim) for _ in range(many)])
    if t == "MultiPolygon":
        return (t, [poly(r, dim) for _ in range(many)])
    inner = TYPES if depth < 2 else TYPES[:4]
    if r.random() < 0.3:
        inner = (r.choice(TYPES[:4]),)  # homogeneous collections
    return (t, [make(r, depth + 1, inner) for _ in range(r.choice((1, 2, 3, r.randint(1, 8))))])


def parts(m):
    t, v = m
    one = {"MultiPoint": "Point", "MultiLineString": "LineString", "MultiPolygon": "Polygon"}
    return [(one[t], x) for x in v] if t in one else v


def norm(m):
    """What .geometry reports for the KML form of m."""
    t, v = m
    if t == "GeometryCollection":
        sub = [norm(x) for x in v]
        kinds = {x[0] for x in sub}
        for k, multi in (("Point", "MultiPoint"), ("LineString", "MultiLineString"), ("Polygon", "MultiPolygon")):
            if kinds == {k}:
                return (multi, [x[1] for x in sub])
        return (t, sub)
    return m


ORDER = ("Point", "LineString", "Polygon", "LinearRing")


def grouped(m):
    t, v = m
    if t != "GeometryCollection":
        return m
    sub = [grouped(x) for x in v]
    return (t, sorted(sub, key=lambda x: ORDER.index(x[0]) if x[0] in ORDER else 9))


def geoi(m):
    t, v = m
    if t == "GeometryCollection":
        return {"type": t, "geometries": tuple(geoi(x) for x in v)}
    if t == "Polygon":
        c = (tuple(v[0]), *(tuple(h) for h in v[1]))
    elif t == "MultiPolygon":
        c = tuple((tuple(e), *(tuple(h) for h in hs)) for e, hs in v)
    elif t == "MultiLineString":
        c = tuple(tuple(x) for x in v)
    elif t == "Point":
        c = v
    else:
        c = tuple(v)
    return {"type": t, "coordinates": c}


def plain(gi):
    """geo interface as comparable data."""
    if gi["type"] == "GeometryCollection":
        return (gi["type"], tuple(plain(x) for x in gi["geometries"]))

    def conv(x):
        return tuple(conv(y) for y in x) if isinstance(x, (tuple, list)) else float(x)

    return (gi["type"], conv(gi["coordinates"]))


def pyg(m):
    import pygeoif.geometry as geo

    t, v = m
    if t == "Point":
        return geo.Point(*v)
    if t in ("LineString", "LinearRing"):
        return getattr(geo, t)(v)
    if t == "Polygon":
        return geo.Polygon(v[0], v[1])
    if t == "MultiPoint":
        return geo.MultiPoint(v)
    if t == "MultiLineString":
        return geo.MultiLineString(v)
    if t == "MultiPolygon":
        return geo.MultiPolygon.from_polygons(*[geo.Polygon(e, h) for e, h in v])
    return geo.GeometryCollection([pyg(x) for x in v])


def shp(m):
    import shapely.geometry as sg

    t, v = m
    if t == "Polygon":
        return sg.Polygon(v[0], v[1])
    if t == "MultiPolygon":
        return sg.MultiPolygon([sg.Polygon(e, h) for e, h in v])
    if t == "GeometryCollection":
        return sg.GeometryCollection([shp(x) for x in v])
    return getattr(sg, t)(v)


class Foreign:
    def __init__(self, gi):
        self.__geo_interface__ = gi


def kmlnode(m, opts):
    t, v = m
    o = {k: x for k, x in opts.items() if x is not None}
    if t == "Point":
        o.pop("tessellate", None)
        return Node(t, kml_coordinates=Node("Coordinates", coords=[v]), **o)
    if t in ("LineString", "LinearRing"):
        return Node(t, kml_coordinates=Node("Coordinates", coords=v), **o)
    if t == "Polygon":
        def b(c, r):
            return Node(c, kml_geometry=Node("LinearRing", kml_coordinates=Node("Coordinates", coords=r)))
        return Node(t, outer_boundary=b("OuterBoundaryIs", v[0]), inner_boundaries=[b("InnerBoundaryIs", h) for h in v[1]], **o)
    return Node("MultiGeometry", kml_geometries=[kmlnode(x, opts) for x in parts(m)])


def cases(tier, seed):
    yield from random_cases(20000 if tier == "quick" else 200000)
    yield from random_cases(1600 if tier == "quick" else 4000, "reject")


def run(ctx, case_id, _):
    import pygeoif.geometry as geo
    from fastkml import Placemark
    from fastkml import geometry as kg
    from fastkml.enums import AltitudeMode
    from fastkml.exceptions import GeometryError

    rng = ctx.rng
    if case_id.startswith("reject"):
        return reject(ctx, rng)
    m = make(rng)
    ctx.hit("type:" + m[0])
    if m[0] == "Polygon" and m[1][1]:
        ctx.hit("holes")
    want = plain(geoi(norm(m)))
    src = rng.choice(("pygeoif", "pygeoif", "shapely", "shapely", "dict", "object"))
    ctx.hit("src:" + src)
    arg = {"pygeoif": pyg, "shapely": shp, "dict": geoi, "object": lambda x: Foreign(geoi(x))}[src](m)
    opts = {"extrude": rng.choice((None, True, False)), "tessellate": rng.choice((None, True, False)),
            "altitude_mode": rng.choice((None, None, "absolute", "relativeToGround", "clampToGround", "clampToSeaFloor"))}
    okw = dict(opts)
    if okw["altitude_mode"]:
        okw["altitude_mode"] = AltitudeMode(okw["altitude_mode"])
    route = rng.choice(("create", "create", "placemark", "class"))
    if route == "class" and src in ("dict", "object"):
        route = "create"
    be = rng.choice(("lxml", "stdlib"))
    with backend(be):
        if route == "placemark":
            holder = Placemark(geometry=arg)
            kobj = holder.kml_geometry
            node = kmlnode(m, {})
        elif route == "create":
            holder = kobj = kg.create_kml_geometry(arg, id="g1", target_id="t1", **okw)
            node = kmlnode(m, opts)
            node.f["id"], node.f["target_id"] = "g1", "t1"
        else:
            holder = kobj = getattr(kg, m[0] if not m[0].startswith(("Multi", "Geom")) else "MultiGeometry")(geometry=arg, **okw)
            node = kmlnode(m, opts)
        ctx.hit("route:" + route)
        got = canon(observe(kobj))
        ctx.ok(repr(want))
        if got != canon(node):
            ctx.fail("structure-differs", f"[{src} {route}] {diff(canon(node), got)}", geometry=m)
            return
        for label, h in (("object", kobj), ("holder", holder)):
            geom = h.geometry
            ctx.ok()
            if plain(geom.__geo_interface__) != want:
                ctx.fail("geometry-differs", f"[{src} {route} {label}] .geometry is not the original", want=want, got=geom)
                return
        if norm(m) == m and not (kobj.geometry == pyg(m)):
            ctx.fail("geometry-unequal", f"[{src} {route}] .geometry != original", want=m)
        text = holder.to_string()
        again = type(holder).from_string(text)
        want2 = plain(geoi(norm(grouped(m))))
        got2 = again.geometry
        ctx.hit("read-back")
        ctx.ok()
        if got2 is None or plain(got2.__geo_interface__) != want2:
            ctx.fail("read-back-differs", f"[{src} {route} {be}] geometry read back is not the original", want=want2, xml=text)
        back = canon(observe(again if route != "placemark" else again.kml_geometry, parsed=True), group=True)
        if back != canon(node, group=True):
            ctx.fail("read-back-structure", f"[{src} {route} {be}] {diff(canon(node, group=True), back)}", xml=text)
    if rng.random() < 0.01:
        ctx.sample({"source": src, "route": route, "geometry": str(geoi(m))[:500]})


def reject(ctx, rng):
    import pygeoif.geometry as geo
    from fastkml import Placemark
    from fastkml import geometry as kg
    from fastkml.exceptions import GeometryError

    m = make(rng, types=TYPES[:4])
    t = m[0]
    gobj = pyg(m)
    coords = kg.Coordinates(coords=[(1.0, 2.0), (3.0, 4.0), (5.0, 6.0), (1.0, 2.0)])
    other = kg.Point(geometry=geo.Point(1, 2))

    def both():
        if t == "Polygon":
            return kg.Polygon(geometry=gobj, outer_boundary=kg.OuterBoundaryIs(kml_geometry=kg.LinearRing(kml_coordinates=coords)))
        return getattr(kg, t)(geometry=gobj, kml_coordinates=coords)

    ring_ = geo.LinearRing([(0, 0), (1, 0), (1, 1), (0, 0)])
    trials = {
        "both": (both, GeometryError),
        "holes-both": (lambda: kg.Polygon(geometry=geo.Polygon([(0, 0), (9, 0), (9, 9), (0, 0)]), inner_boundaries=[kg.InnerBoundaryIs(geometry=ring_)]), GeometryError),
        "multi-both": (lambda: kg.MultiGeometry(geometry=geo.MultiPoint([(1, 2)]), kml_geometries=[other]), GeometryError),
        "boundary-both": (lambda: rng.choice((kg.OuterBoundaryIs, kg.InnerBoundaryIs))(geometry=ring_, kml_geometry=kg.LinearRing(geometry=ring_)), GeometryError),
        "placemark-both": (lambda: Placemark(geometry=gobj, kml_geometry=other), ValueError),
        "unknown-type": (lambda: kg.create_kml_geometry({"type": "Circle", "coordinates": (1, 2)}), Exception),
        "no-geometry": (lambda: kg.create_kml_geometry(rng.choice((object(), 3, "POINT (1 2)"))), Exception),
        "4d": (lambda: kg.Coordinates(coords=[(1.0, 2.0, 3.0, 4.0)]).to_string(), Exception),
    }
    for name, (fn, exc) in trials.items():
        ctx.ok(name)
        try:
            fn()
        except exc:
            ctx.hit("rejected")
        except Exception as e:
            ctx.fail("wrong-error:" + name, f"{type(e).__name__}: {e}")
        else:
            ctx.fail("accepted:" + name, "contradictory or unsupported geometry accepted")
