"""C22: large and deep documents are handled completely."""

import io
import sys
import zipfile

from vk.common import *
from vk.spec import GEOMETRIES

RULE = ("for every list valued part of KML (positions, rings, parts, features, styles, pairs, data, schema fields, aliases, track items, tracks) and for long texts, documents of sizes up to the stated ones are built, written, read (string, stream, .kml, .kmz), compared and searched by both libraries and held against the model; "
        "the events (function starts, calls, lines) executed in the library at sizes n and 4n are counted and must grow in proportion; folders and multi geometries are nested 120 deep at Python's default recursion limit; non-trivial: distinct (kind, size, operation)")
NEED = {"large": 40, "cost-ratios": 150, "deep": 4, "items": 50000}
ASSUMPTIONS = ["proportional growth is judged on executed events inside the package (4 times the items: less than 5.5 times the events; twice the depth: less than 6.5 times), not on time", "nesting is explored to 120 levels, the depth of Python's default recursion limit of 1000"]

UTC = __import__("datetime").timezone.utc


def _pt(i):
    return (round(-180 + (i * 7919 % 360000) / 1000, 3), round(-90 + (i * 104729 % 180000) / 1000, 3))


def coords(n, dim=2):
    return [(*_pt(i), *([float(i)] if dim == 3 else [])) for i in range(n)]


def ring(i, d=0.001):
    x, y = _pt(i)
    return Node("LinearRing", kml_coordinates=Node("Coordinates", coords=[(x, y), (x + d, y), (x + d, y + d), (x, y)]))


def when(i):
    import datetime as dt

    return ("dateTime", dt.datetime(2000, 1, 1, tzinfo=UTC) + dt.timedelta(seconds=i))


def pm(i):
    return Node("Placemark", id=f"p{i}", name=f"name {i}", kml_geometry=Node("Point", kml_coordinates=Node("Coordinates", coords=[_pt(i)])))


def mixed(i):
    k = i % 4
    if k == 0:
        return pm(i)
    if k == 1:
        return Node("Folder", name=f"f{i}", features=[pm(i)])
    if k == 2:
        return Node("GroundOverlay", id=f"g{i}", icon=Node("Icon", href=f"{i}.png"), lat_lon_box=Node("LatLonBox", north=1.0, south=0.0, east=float(i % 180), west=0.0))
    return Node("NetworkLink", name=f"n{i}", link=Node("Link", href=f"http://x/{i}"))


def track(n, off=0):
    return Node("Track", track_items=[(when(i + off), (*_pt(i), float(i)), (float(i % 360), 0.0, 0.0)) for i in range(n)])


KINDS = {
    "line": (lambda n: Node("LineString", kml_coordinates=Node("Coordinates", coords=coords(n))), 60000, 300000),
    "line3d": (lambda n: Node("Placemark", name="x", kml_geometry=Node("LineString", kml_coordinates=Node("Coordinates", coords=coords(n, 3)))), 30000, 200000),
    "ring": (lambda n: Node("LinearRing", kml_coordinates=Node("Coordinates", coords=[*coords(n), coords(1)[0]])), 30000, 200000),
    "polygon": (lambda n: Node("Polygon", outer_boundary=Node("OuterBoundaryIs", kml_geometry=Node("LinearRing", kml_coordinates=Node("Coordinates", coords=[*coords(n), coords(1)[0]])))), 20000, 100000),
    "holes": (lambda n: Node("Polygon", outer_boundary=Node("OuterBoundaryIs", kml_geometry=ring(0, 100.0)), inner_boundaries=[Node("InnerBoundaryIs", kml_geometry=ring(i)) for i in range(n)]), 1500, 10000),
    "parts": (lambda n: Node("MultiGeometry", kml_geometries=[Node("Point", kml_coordinates=Node("Coordinates", coords=[_pt(i)])) for i in range(n)]), 2500, 20000),
    "mixedparts": (lambda n: Node("MultiGeometry", kml_geometries=[*[Node("Point", kml_coordinates=Node("Coordinates", coords=[_pt(i)])) for i in range(n // 2)], *[Node("LineString", kml_coordinates=Node("Coordinates", coords=[_pt(i), _pt(i + 1)])) for i in range(n - n // 2)]]), 1500, 10000),
    "features": (lambda n: Node("KML", features=[Node("Document", name="d", features=[pm(i) for i in range(n)])]), 2500, 25000),
    "rootfeatures": (lambda n: Node("KML", features=[pm(i) for i in range(n)]), 1500, 10000),
    "mixedfeatures": (lambda n: Node("KML", features=[Node("Document", features=sorted((mixed(i) for i in range(n)), key=lambda x: ("Folder", "Placemark", "GroundOverlay", "NetworkLink").index(x.cls)))]), 1500, 10000),
    "folders": (lambda n: Node("KML", features=[Node("Folder", name=f"f{i}", features=[pm(i * 10 + j) for j in range(10)]) for i in range(max(1, n // 10))]), 1500, 15000),
    "styles": (lambda n: Node("Document", styles=[Node("Style", id=f"s{i}", styles=[Node("LineStyle", width=float(i)), Node("PolyStyle", fill=True)]) for i in range(n)], features=[Node("Placemark", style_url=Node("StyleUrl", url="#s1"))]), 1200, 10000),
    "pairs": (lambda n: Node("StyleMap", pairs=[Node("Pair", key="normal", style=Node("StyleUrl", url=f"#u{i}")) for i in range(n)]), 1500, 10000),
    "data": (lambda n: Node("Placemark", extended_data=Node("ExtendedData", elements=[Node("Data", name=f"k{i}", value=f"v{i}") for i in range(n)])), 2000, 20000),
    "schema": (lambda n: Node("Document", schemata=[Node("Schema", id="s", name="x", fields=[Node("SimpleField", name=f"f{i}", type_="int", display_name=f"F {i}") for i in range(n)])]), 1500, 10000),
    "schemadata": (lambda n: Node("ExtendedData", elements=[Node("SchemaData", schema_url="#s", data=[Node("SimpleData", name=f"k{i}", value=f"v{i}") for i in range(n)])]), 2000, 20000),
    "aliases": (lambda n: Node("ResourceMap", aliases=[Node("Alias", target_href=f"t{i}", source_href=f"s{i}") for i in range(n)]), 1500, 10000),
    "track": (lambda n: track(n), 4000, 40000),
    "tracks": (lambda n: Node("Placemark", kml_geometry=Node("MultiTrack", tracks=[track(5, i) for i in range(n)])), 300, 3000),
    "schemata": (lambda n: Node("Document", schemata=[Node("Schema", id=f"s{i}", fields=[Node("SimpleField", name="a", type_="string")]) for i in range(n)]), 1000, 10000),
}
def deep_geometry(d):
    n = Node("Point", kml_coordinates=Node("Coordinates", coords=[(1.0, 2.0)]))
    for i in range(d):
        n = Node("MultiGeometry", kml_geometries=[n])
    return n


def deep_folder(d):
    n = pm(1)
    for i in range(d):
        n = Node("Folder" if i % 2 else "Document", name=str(i), features=[n])
    return n


DEEP = {"geometry": deep_geometry, "folder": deep_folder, "placed": lambda d: Node("Placemark", kml_geometry=deep_geometry(d))}
TEXTS = ("name", "description", "attribute", "data", "snippet", "balloon")


def cases(tier, seed):
    q = tier == "quick"
    for be in ("lxml", "stdlib"):
        for k in DEEP:
            yield f"deepcost:{be}:{k}", None
    for be in ("lxml", "stdlib"):
        for d in (120,) if q else (60, 120, 150):
            yield f"deep:{be}:folder:{d}", None
            yield f"deep:{be}:geometry:{d}", None
            yield f"deep:{be}:mixed:{d}", None
        for t in TEXTS:
            yield f"text:{be}:{t}:{11_500_000 if t in ('description', 'data') or not q else 1_500_000}", None
        for k in KINDS:
            yield f"large:{be}:{k}:{KINDS[k][1 if q else 2]}", None
            yield f"cost:{be}:{k}", None
    if not q:
        for be in ("lxml", "stdlib"):
            for k in KINDS:
                for i in range(6):
                    yield f"large:{be}:{k}:odd{i}", None


# ------------------------------------------------------------------ cost
class Events:
    """Counts what is executed inside the package."""

    TOOL = 3

    def __init__(self):
        from vk.runner import REPO

        self.root = str(REPO / "fastkml")
        self.n = 0

    def count(self, f):
        mon = sys.monitoring
        self.n = 0
        mon.use_tool_id(self.TOOL, "vk-cost")
        ev = mon.events

        def hit(code, *_):
            if code.co_filename.startswith(self.root):
                self.n += 1
                return None
            return mon.DISABLE

        for e in (ev.PY_START, ev.PY_RESUME, ev.LINE, ev.CALL):
            mon.register_callback(self.TOOL, e, hit)
        mon.restart_events()
        mon.set_events(self.TOOL, ev.PY_START | ev.PY_RESUME | ev.LINE | ev.CALL)
        try:
            f()
        finally:
            mon.set_events(self.TOOL, 0)
            for e in (ev.PY_START, ev.PY_RESUME, ev.LINE, ev.CALL):
                mon.register_callback(self.TOOL, e, None)
            mon.free_tool_id(self.TOOL)
        return self.n


def list_attr(obj):
    """The list that grows, for appending item by item."""
    return obj


def operations(node, k):
    from fastkml.base import _XMLObject
    from fastkml.containers import Document
    from fastkml.utils import find, find_all

    cls = SPECS[node.cls].pycls
    obj, twin = build(node), build(node)
    text = obj.to_string()
    ops = {
        "build": lambda: build(node),
        "write": lambda: obj.to_string(),
        "write-precision": lambda: obj.to_string(precision=3),
        "read": lambda: cls.from_string(text),
        "read-lenient": lambda: cls.from_string(text, strict=False),
        "eq": lambda: obj == twin,
        "bool": lambda: bool(obj),
        "repr": lambda: repr(obj),
        "find_all": lambda: list(find_all(obj, of_type=_XMLObject)),
        "find": lambda: find(obj, name="no such name anywhere"),
    }
    if hasattr(cls, "geometry") and node.cls in GEOMETRIES:
        ops["geometry"] = lambda: obj.geometry
    if node.cls == "Document":
        ops["style"] = lambda: obj.get_style_by_url("#nothing")
    if node.cls in ("KML",):
        from fastkml.containers import Folder

        kids = [build(pm(i)) for i in range(len(list(find_all(obj, of_type=SPECS["Placemark"].pycls))))]

        def append():
            f = Folder()
            for x in kids:
                f.append(x)

        ops["append"] = append
    return ops


def cost(ctx, be, k):
    make = KINDS[k][0]
    small = 40 if k != "tracks" else 10
    with backend(be):
        a, b = operations(make(small), k), operations(make(4 * small), k)
        for op in a:
            c = Events()
            for f in (a[op], b[op]):
                f()
            x, y = c.count(a[op]), c.count(b[op])
            ctx.hit("cost-ratios")
            ctx.ok((k, op, be, "cost"))
            ctx.hit("events-counted", x + y)
            if y > 5.5 * max(x, 20):
                ctx.fail(f"superlinear:{op}", f"[{be}] {op} of {k}: {x} events for {small} items, {y} for {4 * small}")
        if ctx.rng.random() < 0.2:
            ctx.sample(f"{k}/{op}/{be}: {x} events at {small}, {y} at {4 * small}")


def deep_cost(ctx, be, k):
    """In depth every level may look at all below it, but no more."""
    make = DEEP[k]
    with backend(be):
        a, b = operations(make(8), k), operations(make(16), k)
        for op in a:
            c = Events()
            x, y = c.count(a[op]), c.count(b[op])
            ctx.hit("cost-ratios")
            ctx.ok((k, op, be, "deepcost"))
            if y > 6.5 * max(x, 20):
                ctx.fail(f"superquadratic:{op}", f"[{be}] {op} of {k}: {x} events for depth 8, {y} for depth 16")


# ------------------------------------------------------------------ size
def large(ctx, be, k, n):
    from fastkml.base import _XMLObject
    from fastkml.utils import find_all

    node = KINDS[k][0](n)
    want = canon(node)
    cls = SPECS[node.cls].pycls
    with backend(be):
        obj = build(node)
        ctx.hit("large")
        ctx.hit("items", n)
        text = obj.to_string()
        bad = compare(expect(node), parse(text))
        ctx.ok((k, n, be, "write"))
        if bad:
            ctx.fail("write", f"[{be}] {k} of {n}: {'; '.join(bad[:3])}"[:800])
            return
        back = cls.from_string(text)
        got = canon(observe(back, parsed=True))
        ctx.ok((k, n, be, "read"))
        if got != want:
            ctx.fail("read", f"[{be}] {k} of {n}: {diff(want, got)}"[:800])
            return
        ctx.ok((k, n, be, "eq"))
        if not (back == obj):
            ctx.fail("eq", f"[{be}] {k} of {n}: read object is not equal")
            return
        total = sum(1 for _ in node.walk())
        found = list(find_all(back, of_type=_XMLObject))
        ctx.ok((k, n, be, "find"))
        if len(found) != total:
            ctx.fail("find", f"[{be}] {k} of {n}: {len(found)} objects found instead of {total}")
        if node.cls == "KML":
            pms = [m.get("name") for m in node.walk() if m.cls == "Placemark"]
            got = [o.name for o in find_all(back, of_type=SPECS["Placemark"].pycls)]
            if got != pms:
                ctx.fail("find-order", f"[{be}] {k} of {n}: placemarks found in another order or number")
            for suffix in ("kml", "kmz"):
                p = ctx.scratch / f"big.{suffix}"
                obj.write(p)
                if suffix == "kmz":
                    with zipfile.ZipFile(p) as z:
                        data = io.BytesIO(z.read("doc.kml"))
                else:
                    data = str(p)
                again = cls.parse(data, validate=False)
                p.unlink()
                ctx.ok((k, n, be, suffix))
                if canon(observe(again, parsed=True)) != want:
                    ctx.fail("file", f"[{be}] {k} of {n}: .{suffix} file reads differently")
            again = cls.parse(io.StringIO(text), validate=True) if be == "lxml" and k not in ("rootfeatures", "folders") else None
            if again is not None and not (again == back):
                ctx.fail("parse", f"[{be}] {k} of {n}: parse with validation differs")
        if node.cls in GEOMETRIES and node.cls != "Model":
            geom = back.geometry
            ctx.ok()
            if k in ("line", "ring"):
                have = len(geom.coords)
            elif k == "holes":
                have = len(list(geom.interiors))
            elif k in ("parts", "mixedparts"):
                have = len(list(geom.geoms))
            elif k == "track":
                have = len(geom.coords)
            else:
                have = len(geom.exterior.coords)
            exp = n + 1 if k in ("ring", "polygon") else n
            if have != exp:
                ctx.fail("geometry", f"[{be}] {k} of {n}: geometry has {have} items")


def text_case(ctx, be, t, n):
    rng = ctx.rng
    words = ["lorem", "Köln", "a&b", "<i>x</i>", "日本", "1.5", "end"]
    s = " ".join(rng.choice(words) + str(i) for i in range(2000))
    s = (s + " ") * (n // len(s) + 1)
    s = s[:n - 1].strip() + "Z"
    node = {
        "name": lambda: Node("Placemark", name=s), "description": lambda: Node("KML", features=[Node("Document", description=s, features=[pm(1)])]),
        "attribute": lambda: Node("Placemark", id=s), "data": lambda: Node("ExtendedData", elements=[Node("Data", name="k", value=s), Node("Data", name="l", value="v")]),
        "snippet": lambda: Node("Folder", snippet=Node("Snippet", text=s), name="after"), "balloon": lambda: Node("BalloonStyle", text=s),
    }[t]()
    want = canon(node)
    cls = SPECS[node.cls].pycls
    with backend(be):
        obj = build(node)
        text = obj.to_string(prettyprint=False)
        back = cls.from_string(text)
        ctx.hit("large")
        ctx.ok((t, n, be))
        got = canon(observe(back, parsed=True))
        if got != want or not (back == obj):
            ctx.fail("text", f"[{be}] {t} of {n} characters does not survive")
        if node.cls == "KML":
            again = cls.parse(io.BytesIO(text.encode()), validate=False)
            ctx.ok()
            if canon(observe(again, parsed=True)) != want:
                ctx.fail("text-parse", f"[{be}] {t} of {n} characters does not survive parsing")


def deep(ctx, be, kind, d):
    from fastkml.containers import Document, Folder
    from fastkml.features import Placemark
    from fastkml.geometry import Coordinates, MultiGeometry, Point
    from fastkml.kml import KML
    from fastkml.utils import find_all

    def nest():
        pt = Point(kml_coordinates=Coordinates(coords=[(1.0, 2.0)]))
        if kind == "geometry":
            o = pt
            for i in range(d):
                o = MultiGeometry(id=str(i), kml_geometries=[o])
            return Placemark(kml_geometry=o)
        o = Placemark(name="leaf", kml_geometry=pt)
        for i in range(d):
            o = Folder(name=str(i), features=[o]) if kind == "folder" or i % 2 else Document(name=str(i), features=[o, Placemark(name=f"side{i}")])
        return KML(features=[o])

    def names(o):
        out = []
        if kind == "geometry":
            x = o.kml_geometry
            while type(x) is MultiGeometry:
                out.append(x.id)
                (x,) = x.kml_geometries
            out.append(tuple(x.kml_coordinates.coords))
        else:
            (x,) = o.features
            while type(x) is not Placemark:
                out.append((type(x).__name__, x.name, len(x.features)))
                x = next((y for y in x.features if type(y) is not Placemark), None) or next(y for y in x.features if y.name == "leaf")
            out.append(x.name)
        return out

    with backend(be):
        import inspect

        obj, twin = nest(), nest()
        want = names(obj)
        old = sys.getrecursionlimit()
        sys.setrecursionlimit(1000 + len(inspect.stack(0)))
        try:
            text = obj.to_string(prettyprint=False)
            back = type(obj).from_string(text)
            eq = (obj == twin, back == obj)
            again = back.to_string(prettyprint=False)
            rep = repr(obj)
            found = list(find_all(obj, of_type=(Folder, Document, MultiGeometry)))
            third = KML.parse(io.BytesIO(text.encode()), validate=False) if kind != "geometry" else None
            geom = obj.geometry if kind == "geometry" else None
        finally:
            sys.setrecursionlimit(old)
        ctx.hit("deep")
        ctx.ok((kind, d, be), 7)
        what = f"[{be}] {kind} nested {d} deep"
        if names(back) != want:
            ctx.fail("deep-read", f"{what}: read differently")
        if third is not None and names(third) != want:
            ctx.fail("deep-parse", f"{what}: parsed differently")
        if eq != (True, True):
            ctx.fail("deep-eq", f"{what}: equality {eq}")
        if kind == "geometry" and geom is None:
            ctx.fail("deep-geometry", f"{what}: no geometry")
        if again != text:
            ctx.fail("deep-write", f"{what}: second output differs")
        if len(found) != d:
            ctx.fail("deep-find", f"{what}: {len(found)} found")
        if (kind == "geometry" and rep.count("MultiGeometry(") != d) or (kind == "folder" and rep.count("Folder(") != d):
            ctx.fail("deep-repr", f"{what}: repr incomplete")


def run(ctx, case_id, _):
    kind, be, *rest = case_id.split(":")
    if kind == "cost":
        cost(ctx, be, rest[0])
    elif kind == "deepcost":
        deep_cost(ctx, be, rest[0])
    elif kind == "large":
        n = KINDS[rest[0]][1] // 2 + ctx.rng.randrange(KINDS[rest[0]][1]) if rest[1].startswith("odd") else int(rest[1])
        large(ctx, be, rest[0], n)
    elif kind == "text":
        text_case(ctx, be, rest[0], int(rest[1]))
    else:
        deep(ctx, be, rest[0], int(rest[1]))
