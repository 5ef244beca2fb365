"""C10: dates keep their instant, offset and resolution."""

import datetime as dt

from vk.build import mk_dt, norm_dt, obs_dt
from vk.common import *
from vk.faults import BAD
from vk.gen import gen_dt
from vk.refxml import parse_dt, same_dt
from vk.xmltext import Lex, time as spell

RULE = ("every year, every month and every day of chosen years, all whole-minute offsets, all fraction lengths and random date-times are constructed, written, held against an own reader of the KML forms, and read back, directly and inside "
        "time stamps, spans, track times and expiry times; illegal texts must be rejected; feature accessors are compared with what was set; non-trivial: distinct value")
NEED = {"values": 20000, "res:gYear": 1000, "res:gYearMonth": 1000, "res:date": 1000, "res:dateTime": 3000, "offsets": 500, "rejected": 100, "accessors": 500, "embedded": 1000, "converted": 500}
ASSUMPTIONS = ["a time without offset is read as UTC (existing behaviour)", "offsets are whole minutes, as KML's dateTime has no finer ones"]
UTC = dt.timezone.utc
ENV = {"TZ": "XST-5:30"}  # the zone of the process does not matter


def cases(tier, seed):
    for y in range(1, 10000, 50):
        yield f"years:{y}", list(range(y, min(y + 50, 10000)))
    for y in (1, 4, 100, 400, 999, 1000, 1582, 1900, 1969, 1970, 1999, 2000, 2001, 2004, 2023, 2024, 2100, 9999):
        yield f"days:{y}", y
    for h in range(-23, 24):
        yield f"offsets:{h}", h
    yield from random_cases(24000 if tier == "quick" else 150000, "random")
    yield from random_cases(10000 if tier == "quick" else 40000, "embed")
    yield from random_cases(6000 if tier == "quick" else 20000, "access")
    yield "reject", None


def one(ctx, v, lx=None):
    """Write and read one value; v = (resolution, date or datetime)."""
    from fastkml.times import KmlDateTime

    ctx.hit("values")
    ctx.hit("res:" + v[0])
    k = mk_dt(v)
    ctx.ok(repr(norm_dt(v)))
    if not same_dt(obs_dt(k, ""), v):
        ctx.fail("constructed-differs", f"{v} became {k.resolution, k.dt}")
        return
    if not k:
        ctx.fail("falsy", f"{v} counts as no date")
    text = str(k)
    got = parse_dt(text)
    if not same_dt(got, v):
        ctx.fail("written-differs", f"{v} is written as {text!r}")
        return
    for t in {text, spell(v, Lex.plain()), spell(v, lx) if lx else text}:
        try:
            back = KmlDateTime.parse(t)
        except Exception as e:
            ctx.fail("not-read", f"{t!r}: {type(e).__name__} {e}")
            continue
        if back is None or not same_dt(obs_dt(back, ""), v) or not (back == k):
            ctx.fail("read-differs", f"{t!r} reads as {back and (back.resolution, back.dt)} instead of {v}")
    ctx.ok(n=2)


def run(ctx, case_id, payload):
    rng = ctx.rng
    kind = case_id.partition(":")[0]
    if kind == "years":
        for y in payload:
            one(ctx, ("gYear", dt.date(y, 1, 1)))
            one(ctx, ("gYearMonth", dt.date(y, rng.randint(1, 12), 1)))
            one(ctx, ("date", dt.date(y, rng.randint(1, 12), rng.randint(1, 28))))
            one(ctx, ("dateTime", dt.datetime(y, rng.randint(1, 12), rng.randint(2, 27), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), tzinfo=UTC)))
    elif kind == "days":
        d = dt.date(payload, 1, 1)
        while d.year == payload:
            one(ctx, ("date", d))
            if d.day == 1:
                one(ctx, ("gYearMonth", d))
            if rng.random() < 0.3:
                one(ctx, ("dateTime", dt.datetime(d.year, d.month, d.day, rng.choice((0, 12, 23)), rng.choice((0, 59)), rng.choice((0, 59)), rng.choice((0, 1, 999999)), tzinfo=UTC)))
            if d == dt.date.max:
                break
            d += dt.timedelta(days=1)
    elif kind == "offsets":
        for m in range(0, 60):
            off = dt.timedelta(hours=abs(payload), minutes=m) * (-1 if payload < 0 or (payload == 0 and rng.random() < 0.5) else 1)
            ctx.hit("offsets")
            one(ctx, ("dateTime", dt.datetime(2012, 7, 8, 9, 10, 11, rng.choice((0, 250000)), tzinfo=dt.timezone(off))))
    elif kind == "random":
        v = gen_dt(rng)
        one(ctx, v, Lex(rng, dts=True))
        convert(ctx, rng)
    elif kind == "embed":
        embed(ctx, rng)
    elif kind == "access":
        access(ctx, rng)
    else:
        from fastkml.times import KmlDateTime

        for bad in (*BAD["dt"], "abcd", "20201301", "2020-02-31", "1900-02-29", "2020-06-31", "2020-01-01T00:60:00Z", "2020-01-01T24:01:00Z", "T10:00:00Z", "not 2020", "2020-", "2020--", "2020--05", "2020-05-", "2020-05--01", "202-05", "2020-5-", "2020-05-01-", "2020-05-01T"):
            ctx.ok(bad)
            try:
                got = KmlDateTime.parse(bad)
            except ValueError:
                ctx.hit("rejected")
            else:
                ctx.fail("illegal-accepted", f"{bad!r} reads as {got and got.dt}")
        for y in range(1, 100):
            for m, d in ((13, 1), (0, 1), (2, 30), (4, 31), (1, 0), (1, 32)):
                t = f"{1990 + y}-{m:02d}-{d:02d}"
                ctx.ok(t)
                try:
                    KmlDateTime.parse(t)
                except ValueError:
                    ctx.hit("rejected")
                else:
                    ctx.fail("illegal-accepted", t)


def convert(ctx, rng):
    """The resolution asked for decides what is kept of a date or datetime."""
    from fastkml.enums import DateTimeResolution as R
    from fastkml.times import KmlDateTime

    d = gen_dt(rng, rng.choice(("dateTime", "date")))[1]
    res = rng.choice((None, "dateTime", "date", "gYearMonth", "gYear"))
    k = KmlDateTime(d, None if res is None else R(res))
    is_dt = isinstance(d, dt.datetime)
    want_res = res or ("dateTime" if is_dt else "date")
    if want_res == "dateTime" and not is_dt:
        want_res = "date"
    day = d.date() if is_dt else d
    want = {"dateTime": d, "date": day, "gYearMonth": day.replace(day=1), "gYear": day.replace(day=1, month=1)}[want_res]
    ctx.hit("converted")
    ctx.ok((str(d), res))
    if not same_dt(obs_dt(k, ""), (want_res, want)):
        ctx.fail("resolution-differs", f"KmlDateTime({d!r}, {res}) holds {k.resolution} {k.dt!r}, expected {want_res} {want!r}")
    elif not same_dt(parse_dt(str(k)), (want_res, want)):
        ctx.fail("resolution-written", f"KmlDateTime({d!r}, {res}) is written as {k}")


def embed(ctx, rng):
    a, b = gen_dt(rng), gen_dt(rng)
    n = rng.choice((
        Node("TimeStamp", timestamp=a), Node("TimeSpan", begin=a, end=b), Node("TimeSpan", begin=a), Node("TimeSpan", end=b), Node("NetworkLinkControl", expires=a),
        Node("Track", track_items=[(a, (1.0, 2.0), (0.0, 0.0, 0.0)), (b, (3.0, 4.0), (1.0, 1.0, 1.0))]),
        Node("Placemark", times=Node("TimeStamp", timestamp=a)), Node("Folder", times=Node("TimeSpan", begin=a, end=b), name="x"),
        Node("KML", features=[Node("Document", features=[Node("Placemark", times=Node("TimeSpan", end=b)), Node("GroundOverlay", times=Node("TimeStamp", timestamp=a))])])))
    with backend(rng.choice(("lxml", "stdlib"))):
        text = build(n).to_string()
        ctx.hit("embedded")
        ctx.ok(text)
        check_output(ctx, "embedded-written", n, text)
        back = canon(observe(SPECS[n.cls].pycls.from_string(text), parsed=True), angles=True)
        if back != canon(n, angles=True):
            ctx.fail("embedded-read", diff(canon(n, angles=True), back), xml=text)
    if rng.random() < 0.01:
        ctx.sample(text[:400])


def access(ctx, rng):
    from vk.spec import FEATURES

    cls = rng.choice(FEATURES)
    gen = g.Gen(rng, fill=0.2, max_depth=1)
    n = gen.node(cls)
    a, b = gen_dt(rng), gen_dt(rng)
    t = rng.choice((None, Node("TimeStamp", timestamp=a), Node("TimeSpan", begin=a, end=b), Node("TimeSpan", begin=a), Node("TimeSpan", end=b)))
    n.put("times", t)
    obj = build(n)
    for o in (obj, SPECS[cls].pycls.from_string(obj.to_string())):
        want = (t.get("timestamp"), t.get("begin"), t.get("end")) if t is not None else (None, None, None)
        got = (o.time_stamp, o.begin, o.end)
        ctx.hit("accessors")
        ctx.ok(repr(want))
        for name, w, x in zip(("time_stamp", "begin", "end"), want, got):
            if (w is None) != (x is None) or (w is not None and not same_dt(obs_dt(x, ""), w)):
                ctx.fail("accessor-differs", f"{cls}.{name} is {x} instead of {w}")
