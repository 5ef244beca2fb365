"""C15: the repr of an object rebuilds an equal object."""

import datetime

from vk.build import kwargs_of
from vk.common import *
from vk.xmltext import model_text

RULE = ("every class with every property and edge value and random documents, built or read by either XML library, are printed with repr(), evaluated in a scope holding the library's and pygeoif's names, and compared by == and by all documented attributes; "
        "the text must not depend on how often it is asked for, and distinct models must print differently; non-trivial: distinct printed text")
NEED = {"evals": 3000, "built": 1000, "read": 500, "distinct-pairs": 500, "hollow": 500, "extra-arguments": 500}
ASSUMPTIONS = ["the names in scope are those the project's own tests use: fastkml, its enumerations, TrackItem and Angle, pygeoif's geometries, datetime and dateutil's tzutc"]
SCOPE = {}


def setup(ctx):
    import fastkml
    import fastkml.enums
    import pygeoif
    import pygeoif.geometry as geo
    from dateutil.tz import tzfile, tzutc
    from fastkml.gx import Angle, TrackItem

    for n in ("Point", "Polygon", "LineString", "LinearRing"):
        SCOPE[n] = getattr(geo, n)
    for n in ("MultiPoint", "MultiLineString", "MultiPolygon", "GeometryCollection"):
        SCOPE[n] = getattr(pygeoif, n)
    for n in ("AltitudeMode", "ViewRefreshMode", "RefreshMode", "DateTimeResolution", "DataType", "Units", "ColorMode", "DisplayMode", "PairKey", "GridOrigin", "Shape", "Verbosity"):
        SCOPE[n] = getattr(fastkml.enums, n)
    SCOPE.update(fastkml=fastkml, TrackItem=TrackItem, Angle=Angle, datetime=datetime, tzutc=tzutc, tzfile=tzfile)


def cases(tier, seed):
    yield from sweep_cases(seed)
    yield from random_cases(16000 if tier == "quick" else 120000)


LAST = {}


def run(ctx, case_id, node):
    rng = ctx.rng
    if node is None:
        node = tree(rng)
        if rng.random() < 0.15 and hollow(rng, node):
            ctx.hit("hollow")
    with backend(rng.choice(("lxml", "stdlib"))):
        how = "read" if rng.random() < 0.4 else "built"
        extra = {}
        obj = build(node)
        if how == "read":
            obj = type(obj).from_string(model_text(node))
        elif rng.random() < 0.2:
            # arguments the class does not know are kept, compared and printed
            extra = {k: rng.choice((0, False, "", 0.0, [], (), {}, 1, "text", -2.5, [0, ""], True)) for k in rng.sample(("vk_a", "vk_b", "zz", "aa"), rng.choice((1, 1, 2, 3)))}
            obj = type(obj)(**kwargs_of(node), **extra)
            ctx.hit("extra-arguments")
        ctx.hit(how)
        text = repr(obj)
        ctx.hit("evals")
        ctx.ok(text)
        try:
            again = eval(text, {}, SCOPE)  # noqa: S307
        except Exception as e:
            ctx.fail("not-evaluable", f"[{how}] {type(e).__name__}: {e}", repr=text, model=node)
            return
        if type(again) is not type(obj):
            ctx.fail("other-class", f"[{how}] {type(again)}", repr=text)
            return
        want, got = canon(observe(obj)), canon(observe(again))
        ctx.ok(n=4)
        if want != got:
            ctx.fail("values-differ", f"[{how}] {diff(want, got)}", repr=text)
            return
        if extra and [getattr(again, k, None) for k in extra] != [getattr(obj, k) for k in extra] or [type(getattr(again, k, None)) for k in extra] != [type(v) for v in extra.values()]:
            ctx.fail("extra-differs", f"[{how}] additional arguments {extra} are lost", repr=text)
            return
        if not (obj == again) or not (again == obj):
            ctx.fail("unequal", f"[{how}] evaluated object is not equal", repr=text)
        if (again.ns, again.name_spaces) != (obj.ns, obj.name_spaces):
            ctx.fail("namespaces-differ", f"[{how}] {again.ns} {again.name_spaces}", repr=text)
        if repr(again) != text or repr(obj) != text:
            ctx.fail("repr-differs", f"[{how}] repr of the evaluated object differs", repr=text, again=repr(again))
        if again.to_string() != obj.to_string():
            ctx.fail("output-differs", f"[{how}] output of the evaluated object differs", repr=text)
        key = (node.cls, how)
        if key in LAST and LAST[key][0] != want:
            ctx.hit("distinct-pairs")
            if LAST[key][1] == text:
                ctx.fail("same-repr", "objects with different content print alike", repr=text)
        LAST[key] = (want, text)
    if rng.random() < 0.01:
        ctx.sample(text[:600])
