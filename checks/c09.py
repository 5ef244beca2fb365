"""C09: track items keep time, position and angles together."""

import datetime as dt

from vk.build import mk_dt, mk_items, norm_dt, obs_dt
from vk.common import *
from vk.faults import BAD
from vk.refxml import Exp, leaf
from vk.spec import GXURI, KMLURI
from vk.xmltext import Lex, to_text

RULE = ("tracks of 1 to 400 items in which time, position and angles of item n all carry the number n, alone, in multi tracks and in placemarks, are constructed in each way, written and read back, and documents with "
        "illegal, empty, missing or surplus parts are read in both modes; a trace checker requires every surviving item to be internally consistent and exactly the unaffected ones to survive; non-trivial: distinct document")
NEED = {"items": 5000, "round-trips": 500, "faulty-docs": 500, "strict-errors": 300, "multitracks": 200, "survivors": 1000, "fault:when": 100, "fault:coord": 100, "fault:angle": 50, "fault:count": 100}
ASSUMPTIONS = ["parts belong together by position: the n-th time, n-th position and n-th angles",
               "an item without angles reads as zero angles, an empty angles element is skipped (existing behaviour, pinned by tests)"]
BADCOORD = ("a b c", "1 b 3", "1", "1 2 3 4", "1,2,3", "x", "1;2", "1 2 3,0", "--1 2 3")
T0 = dt.datetime(2010, 5, 28, 2, 2, 9, tzinfo=dt.timezone.utc)


def item(n, dim, angle, res="dateTime"):
    when = (res, T0 + dt.timedelta(seconds=61 * n)) if res == "dateTime" else ("date", (T0 + dt.timedelta(days=n)).date())
    c = (n / 8 + 1, -n / 16 + 0.5, float(n))[:dim]
    return (when, c, (n % 360 + 0.25, n / 4 + 0.5, -n - 1.0) if angle else None)


def track(rng, start=0, n=None):
    n = n or rng.choice((1, 2, 3, 5, 8, rng.randint(1, 40), rng.randint(1, 40)))
    if rng.random() < 0.03:
        n = rng.randint(100, 400)
    dim = rng.choice((2, 3, 3))
    mode = rng.choice(("all", "all", "none", "mixed"))
    res = rng.choice(("dateTime", "dateTime", "date"))
    out = [item(start + i, dim, mode == "all" or (mode == "mixed" and rng.random() < 0.5), res) for i in range(n)]
    if rng.random() < 0.15:  # standing still: an item may come again, at once or later
        for _ in range(rng.choice((1, 2, 5))):
            i, j = rng.randrange(n), rng.randrange(n)
            k = rng.choice((i + 1, j)) % n
            out[k] = out[i]
    return out


def cases(tier, seed):
    yield from random_cases(20000 if tier == "quick" else 100000, "build")
    yield from random_cases(36000 if tier == "quick" else 200000, "fault")


def once(pts):
    """pygeoif keeps a position that directly repeats once."""
    return [p for i, p in enumerate(pts) if i == 0 or p != pts[i - 1]]


def see(t):
    return [(norm_dt(obs_dt(i.when, "when")), tuple(i.coord.coords[0]), None if i.angle is None else tuple(i.angle.coords)) for i in t.track_items]


def want(items, fill=False):
    z = (0.0, 0.0, 0.0)
    return [(norm_dt(w), tuple(c), z if a is None and fill else a) for w, c, a in items]


def check_track(ctx, t, items, fill, where, **kw):
    got, exp = see(t), want(items, fill)
    ctx.ok()
    ctx.hit("items", len(items))
    if got != exp:
        bad = next((i for i, (x, y) in enumerate(zip(got, exp)) if x != y), min(len(got), len(exp)))
        ctx.fail("items-differ", f"{where}: {len(got)} items, expected {len(exp)}; first difference at {bad}: {got[bad:bad + 1]} instead of {exp[bad:bad + 1]}", **kw)
        return False
    if [norm_dt(obs_dt(w, "")) for w in t.whens] != [x[0] for x in exp]:
        ctx.fail("whens-differ", f"{where}: whens", **kw)
    if [tuple(c) for c in t.coords] != [x[1] for x in exp]:
        ctx.fail("coords-differ", f"{where}: coords", **kw)
    angs = [tuple(a) for a in t.angles]
    if any(x[2] is not None for x in exp):
        if angs != [x[2] if x[2] is not None else (0.0, 0.0, 0.0) for x in exp]:
            ctx.fail("angles-differ", f"{where}: angles", **kw)
    elif angs:
        ctx.fail("angles-differ", f"{where}: angles out of nowhere", **kw)
    if items:
        line = t.geometry
        if once([tuple(c) for c in line.coords]) != once([x[1] for x in exp]):
            ctx.fail("geometry-differs", f"{where}: line geometry", **kw)
    return True


def run(ctx, case_id, _):
    (build_case if case_id.startswith("build") else fault_case)(ctx, ctx.rng)


def build_case(ctx, rng):
    from fastkml import Placemark
    from fastkml.gx import MultiTrack, Track

    items = track(rng)
    be = rng.choice(("lxml", "stdlib"))
    with backend(be):
        way = rng.choice(("items", "items", "iterator", "lists"))
        if way == "lists" and all(i[2] is not None for i in items):
            t = Track(whens=[mk_dt(w) for w, _, _ in items], coords=[c for _, c, _ in items], angles=[a for _, _, a in items])
        elif way == "iterator":
            t = Track(track_items=iter(mk_items(items)))
        else:
            t = Track(track_items=mk_items(items))
        ctx.hit("way:" + way)
        if not check_track(ctx, t, items, False, "constructed"):
            return
        for bad in (lambda: Track(track_items=mk_items(items), whens=[mk_dt(items[0][0])]), lambda: Track(track_items=mk_items(items), coords=[(1, 2)]), lambda: Track(track_items=mk_items(items), angles=[(1, 2, 3)])):
            try:
                bad()
            except ValueError:
                ctx.hit("ambiguous-rejected")
            else:
                ctx.fail("ambiguous-accepted", "items and separate lists accepted together")
        shape = rng.choice(("track", "track", "multi", "placemark", "placemark-multi"))
        if "multi" in shape:
            ctx.hit("multitracks")
            lists = [track(rng, start=1000 * k) for k in range(rng.choice((1, 2, 3, 6)))]
            m = MultiTrack(tracks=[Track(track_items=mk_items(x), id=f"t{k}") for k, x in enumerate(lists)], interpolate=rng.choice((None, True, False)))
            top = m if shape == "multi" else Placemark(kml_geometry=m)
            geom = m.geometry
            ctx.ok()
            if [once([tuple(c) for c in ls.coords]) for ls in geom.geoms] != [once([i[1] for i in x]) for x in lists]:
                ctx.fail("multi-geometry-differs", "multi track geometry")
        else:
            lists = [items]
            top = t if shape == "track" else Placemark(kml_geometry=t)
        text = top.to_string()
        again = type(top).from_string(text)
        ctx.hit("round-trips")
        ctx.ok(text)
        holder = again.kml_geometry if isinstance(again, Placemark) else again
        tracks = holder.tracks if "multi" in shape else [holder]
        if len(tracks) != len(lists) or ("multi" in shape and [x.id for x in tracks] != [f"t{k}" for k in range(len(lists))]):
            ctx.fail("tracks-differ", f"{len(tracks)} tracks instead of {len(lists)}", xml=text)
            return
        for x, exp in zip(tracks, lists):
            check_track(ctx, x, exp, True, f"read back [{be}]", xml=text)
    if rng.random() < 0.01:
        ctx.sample(text[:600])


def fault_case(ctx, rng):
    from fastkml.exceptions import KMLParseError
    from fastkml.gx import Track

    n = rng.choice((1, 2, 3, 4, 6, 10, rng.randint(1, 30)))
    items = track(rng, n=n)
    if len(items) > 60:
        items = items[:60]
    n = len(items)
    has_angles = any(a is not None for _, _, a in items)
    items = [(w, c, a if a is not None or not has_angles else (0.0, 0.0, 0.0)) for w, c, a in items]
    whens = [("dt", w) for w, _, _ in items]
    cos = [("triple", [c]) for _, c, _ in items]
    angs = [("triple", [a]) for _, _, a in items] if has_angles else []
    drop, zero = set(), set()
    count_fault = rng.random() < 0.25
    for _ in range(rng.choice((0, 1) if count_fault else (1, 1, 2, 3, 6))):
        i = rng.randrange(n)
        kind = rng.choice(("when", "coord", "angle", "empty-when", "empty-coord"))
        if kind == "when":
            whens[i] = ("raw", rng.choice(BAD["dt"]))
            drop.add(i)
        elif kind == "coord":
            cos[i] = ("raw", rng.choice(BADCOORD))
            drop.add(i)
        elif kind == "angle" and angs:
            angs[i] = ("raw", rng.choice(BADCOORD))
            zero.add(i)
        elif kind == "empty-when":
            whens[i] = ("raw", "")
            drop.add(i)
        elif kind == "empty-coord":
            cos[i] = ("raw", "")
            drop.add(i)
        ctx.hit("fault:" + kind)
    # what the document finally holds decides (a fault may have replaced another)
    strict_bad = any(k == "raw" for k, _ in whens) or any(k == "raw" and v for k, v in cos) or any(k == "raw" for k, _ in angs)
    if count_fault:
        ctx.hit("fault:count")
        strict_bad = True
        k = rng.randint(1, max(1, n - 1))
        which = rng.choice(("fewer-whens", "fewer-coords", "more-whens", "more-coords"))
        if which == "fewer-whens":
            whens = whens[: n - k]
            drop |= set(range(n - k, n))
        elif which == "fewer-coords":
            cos = cos[: n - k]
            drop |= set(range(n - k, n))
        elif which == "more-whens":
            whens += [("dt", item(5000 + j, 3, False)[0]) for j in range(k)]
        else:
            cos += [("triple", [item(5000 + j, 3, False)[1]]) for j in range(k)]
    e = Exp(f"{{{GXURI}}}Track")
    e.groups = {"when": [leaf(f"{{{KMLURI}}}when", *x) for x in whens], "coord": [leaf(f"{{{GXURI}}}coord", *x) for x in cos],
                "angles": [leaf(f"{{{GXURI}}}angles", *x) for x in angs]}
    lx = Lex(rng, shuffle=rng.random() < 0.5, pad=rng.random() < 0.3, pretty=rng.random() < 0.5, prefixes=rng.choice(("default", "prefixed", "odd")))
    text = to_text(e, lx)
    ctx.hit("faulty-docs")
    ctx.distinct(text)
    be = rng.choice(("lxml", "stdlib"))
    with backend(be):
        try:
            Track.from_string(text, strict=True)
        except KMLParseError:
            ctx.hit("strict-errors")
            if not strict_bad:
                ctx.fail("strict-rejects", f"[{be}] strict reading rejects a legal track", xml=text)
        else:
            if strict_bad:
                ctx.fail("strict-accepts", f"[{be}] strict reading accepts a track with illegal or missing parts", xml=text)
        ctx.ok()
        t = Track.from_string(text, strict=False)
    left = [(w, c, (0.0, 0.0, 0.0) if i in zero else a) for i, (w, c, a) in enumerate(items) if i not in drop]
    ctx.hit("survivors", len(left))
    check_track(ctx, t, left, True, f"lenient [{be}]", xml=text)
    if rng.random() < 0.01:
        ctx.sample(text[:600])
