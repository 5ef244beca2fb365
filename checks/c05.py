"""C05: coordinate precision rounds correctly and touches nothing else."""

import io
import struct

from vk.common import *

RULE = ("geometries and tracks with numbers of all magnitudes, half-way cases and integers, alone and nested in random documents, are written with precision None and 0..20; every coordinate is "
        "compared exactly (decimal arithmetic) with the stored number, all other content with the reference serialization, and without precision the numbers are read back and compared bit for bit; "
        "non-trivial: distinct (text, precision)")
NEED = {"with-precision": 500, "without-precision": 200, "numbers": 5000, "halfway": 50, "integers": 200}
GEOMS = ("Point", "LineString", "LinearRing", "Polygon", "MultiGeometry", "Track", "MultiTrack")


def number(rng, ctx):
    k = rng.randrange(10)
    if k == 0:
        p = rng.randint(0, 8)
        ctx.hit("halfway")
        return (rng.randint(-10 ** 6, 10 ** 6) + 0.5) / 10 ** p
    if k == 1:
        ctx.hit("halfway")
        return rng.randint(-4000, 4000) / 2 ** rng.randint(1, 12)  # exactly representable halves
    if k == 2:
        return rng.choice((0.0, -0.0, 1e-300, 5e-324, -1e-9, 1e16, 1e17, 1e22, 123456789012345680.0, 0.1, -0.4, 0.05, 1.005, 2.675, 1e-5, 0.00001234, 99.9999999, -0.0000001))
    if k == 3:
        whole = rng.randint(-180, 180)
        if rng.random() < 0.4:
            ctx.hit("integers")
            return whole
        return float(whole)
    if k == 4:
        return rng.uniform(-1, 1) * 10.0 ** rng.randint(-15, 15)
    return rng.uniform(-180, 180)


def coords(rng, n, dim, ctx):
    return [tuple(number(rng, ctx) for _ in range(dim)) for _ in range(n)]


def renumber(node, rng, ctx):
    """Replace all coordinates of the model by numbers worth rounding."""
    for m in node.walk():
        if m.cls == "Coordinates":
            old = m.f["coords"]
            new = coords(rng, len(old), len(old[0]), ctx)
            if len(old) > 2 and old[0] == old[-1]:
                new[-1] = new[0]
            m.f["coords"] = new
        elif m.cls == "Track":
            m.f["track_items"] = [
                (w, coords(rng, 1, len(c), ctx)[0], None if a is None else coords(rng, 1, 3, ctx)[0])
                for w, c, a in m.f.get("track_items", [])]
    return node


def cases(tier, seed):
    yield from random_cases(36000 if tier == "quick" else 200000, "geom")
    yield from random_cases(12000 if tier == "quick" else 60000, "doc")


def bits(node):
    out = []
    for m in node.walk():
        if m.cls == "Coordinates":
            out.append([[struct.pack("d", float(x)) for x in c] for c in m.get("coords") or []])
        elif m.cls == "Track":
            out.append([[struct.pack("d", float(x)) for x in (*c, *(a or ()))] for _, c, a in m.get("track_items") or []])
    return out


def run(ctx, case_id, _):
    rng = ctx.rng
    gen = g.Gen(rng, fill=0.3, max_depth=3, big=True)
    if case_id.startswith("geom"):
        cls = rng.choice(GEOMS)
        node = gen.node(cls, depth=1)
        wrap = rng.randrange(5)
        if wrap == 1:
            node = Node("Placemark", kml_geometry=node)
        elif wrap == 2:
            node = Node("KML", features=[Node("Document", features=[Node("Folder", features=[Node("Placemark", kml_geometry=node)])])])
        elif wrap == 3 and cls == "Point":
            node = Node("PhotoOverlay", point=node)
        elif wrap == 4 and cls in ("Point", "LineString", "LinearRing", "Polygon", "MultiGeometry"):
            node = Node("MultiGeometry", kml_geometries=[Node("MultiGeometry", kml_geometries=[node])])
    else:
        node = gen.kml()
    renumber(node, rng, ctx)
    be = rng.choice(("lxml", "stdlib"))
    cls = SPECS[node.cls].pycls
    with backend(be):
        obj = build(node)
        stored = bits(observe(obj))
        for p in (None, rng.randint(0, 10), rng.choice((0, 1, 2, 3, 5, 6, 7, 8, 12, 15, 17, 20))):
            text = obj.to_string(precision=p)
            ctx.hit("with-precision" if p is not None else "without-precision")
            check_output(ctx, "wrong-number" if p is None else "wrong-rounding", node, text, precision=p)
            ctx.ok((text, p))
            if node.cls == "KML" and rng.random() < 0.2:
                f = ctx.scratch / "p.kml"
                obj.write(f, precision=p)
                check_output(ctx, "file-rounding", node, f.read_text(encoding="utf-8"), precision=p)
                ctx.hit("files")
                ctx.ok()
            if p is None:
                back = observe(cls.from_string(text), parsed=True)
                if canon(back, group=True, angles=True) == canon(node, group=True, angles=True, drop_falsy=True):
                    a, b = sorted(map(repr, bits(back))), sorted(map(repr, stored))
                    if a != b and all(i[2] is not None for m in node.walk() if m.cls == "Track" for i in m.get("track_items", [])):
                        ctx.fail("not-bit-identical", "a coordinate read back is not the number that was stored", xml=text)
                else:
                    ctx.fail("not-read-back", diff(canon(node, group=True, angles=True, drop_falsy=True), canon(back, group=True, angles=True)), xml=text)
                ctx.ok()
        if bits(observe(obj)) != stored:
            ctx.fail("stored-changed", "writing changed the stored numbers", model=node)
        ctx.hit("numbers", sum(len(c) for r in stored for c in r))
    if rng.random() < 0.005:
        ctx.sample(text[:600])
