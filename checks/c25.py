"""C25: bad content is reported by name, good content silently."""

import contextlib
import io
import logging
import sys
import warnings
from pathlib import Path

from vk.common import *
from vk.faults import BAD, sites
from vk.xmltext import Lex, to_text

RULE = ("every typed property of every class with every illegal value, and random documents with 1 to 12 of them, are read while a monitor records all log records of the library, Python warnings and anything written to standard output or error: the strict error's "
        "message must contain the name and text of an offending value, lenient reading must log one record of level warning or above with the name and text of each; documents that break the schema are validated and the records compared with the errors a separately kept schema finds; "
        "sound documents are read, written, compared, searched, validated and printed and must leave no record; non-trivial: distinct message")
NEED = {"strict-messages": 1000, "lenient-records": 2000, "multi-fault": 300, "kind:dt": 50, "kind:coords": 50, "kind:enum": 100, "kind:bool": 50, "kind:int": 50, "kind:float": 100, "attributes": 50, "tracks": 500,
        "silent-documents": 800, "silent-files": 200, "silent-shortcuts": 800, "validation-errors": 300, "silent-validations": 100}
ASSUMPTIONS = ["the wording, the number of records beyond one per bad value and the logger's name below 'fastkml' are free"]
SCHEMA = {}


def cases(tier, seed):
    for cls in ALL:
        for fld in SPECS[cls].fields:
            k = fld.kind.removeprefix("A_")
            if k in BAD:
                for i, bad in enumerate(BAD[k]):
                    yield f"single:{cls}.{fld.attr}:{i}", (cls, fld.attr, bad)
    yield from random_cases(8000 if tier == "quick" else 60000, "multi")
    yield from random_cases(1200 if tier == "quick" else 8000, "track")
    yield from random_cases(4000 if tier == "quick" else 30000, "silent")
    yield from random_cases(1600 if tier == "quick" else 12000, "schema")


def setup(ctx):
    from lxml import etree

    data = Path(__file__).resolve().parent.parent / "data" / "schema"
    SCHEMA["own"] = etree.XMLSchema(etree.parse(str(data / "ogckml22.xsd")))
    SCHEMA["etree"] = etree


class Monitor(logging.Handler):
    """All that is said while it is active: log records, warnings, output."""

    def __init__(self):
        super().__init__(logging.DEBUG)
        self.records = []
        self.broken = []

    def emit(self, record):
        try:
            said = record.getMessage()
        except Exception as e:  # the logging module would print a traceback and drop the record
            self.broken.append(f"{record.msg!r} % {record.args!r}: {e!r}"[:600])
            return
        self.records.append((record.levelno, said))

    def __enter__(self):
        self.log = logging.getLogger("fastkml")
        self.before = (self.log.level, self.log.propagate, logging.root.manager.disable)
        logging.disable(logging.NOTSET)
        self.log.setLevel(logging.DEBUG)
        self.log.propagate = False
        self.log.addHandler(self)
        self.stack = contextlib.ExitStack()
        self.out = self.stack.enter_context(contextlib.redirect_stdout(io.StringIO()))
        self.err = self.stack.enter_context(contextlib.redirect_stderr(io.StringIO()))
        self.warned = self.stack.enter_context(warnings.catch_warnings(record=True))
        warnings.simplefilter("always")
        return self

    def __exit__(self, *exc):
        self.stack.close()
        self.log.removeHandler(self)
        self.log.setLevel(self.before[0])
        self.log.propagate = self.before[1]
        logging.disable(self.before[2])

    def loud(self):
        return [m for lev, m in self.records if lev >= logging.WARNING]

    def printed(self):
        return self.out.getvalue() + self.err.getvalue()

    def library_warnings(self):
        return [str(w.message) for w in self.warned if "fastkml" in (w.filename or "")]


def names(m, f):
    """What must be named: the element (and attribute) of the value."""
    tag = SPECS[m.cls].tag
    if f.kind == "coords":
        return ("coordinates",)
    if f.kind.startswith("A_"):
        return (tag, f.node)
    return (f.node,)


def read(node, text, strict, rng):
    cls = SPECS[node.cls].pycls
    if node.cls == "KML" and rng.random() < 0.4:
        return cls.parse(io.BytesIO(text.encode("utf-8")), strict=strict, validate=False)
    return cls.from_string(text, strict=strict)


def run(ctx, case_id, payload):
    kind = case_id.partition(":")[0]
    if kind == "silent":
        return silent(ctx)
    if kind == "schema":
        return schema(ctx)
    if kind == "track":
        return track(ctx)
    from fastkml.exceptions import KMLParseError

    rng = ctx.rng
    raw = {}
    if kind == "single":
        cls, attr, bad = payload
        gen = g.Gen(rng, fill=0.4, max_depth=2)
        node = gen.node(cls)
        fld = SPECS[cls].by_attr[attr]
        if node.get(attr) is None:
            node.put(attr, gen.scalar(fld) if fld.kind != "coords" else gen.coords("LineString"))
            if node.get(attr) is None:
                node.f[attr] = fld.default
        raw[(id(node), attr)] = bad
        faults = [(node, fld, bad)]
    else:
        node = tree(rng)
        places = sites(node)
        if not places:
            return
        rng.shuffle(places)
        faults = []
        for m, f, k in places[: rng.choice((1, 2, 3, 5, 12))]:
            bad = rng.choice(BAD[k])
            raw[(id(m), f.attr)] = bad
            faults.append((m, f, bad))
        if len(faults) > 1:
            ctx.hit("multi-fault")
    for _, f, _ in faults:
        ctx.hit("kind:" + f.kind.removeprefix("A_"))
        if f.kind.startswith("A_"):
            ctx.hit("attributes")
    text = to_text(expect(node, raw=raw), Lex.plain())
    be = rng.choice(("lxml", "stdlib"))
    with backend(be):
        with Monitor() as mon:
            try:
                read(node, text, True, rng)
                said = None
            except KMLParseError as e:
                said = str(e)
            except Exception as e:  # the kind of error is judged by C06
                said = None
        ctx.ok(said)
        if said is not None:
            ctx.hit("strict-messages")
            if not any(bad in said and all(n in said for n in names(m, f)) for m, f, bad in faults):
                ctx.fail("strict-message", f"[{be}] the error names none of the bad values {[(names(m, f), bad) for m, f, bad in faults][:4]}: {said[:600]}", xml=text)
        if mon.printed():
            ctx.fail("prints", f"[{be}] strict reading printed {mon.printed()[:200]!r}", xml=text)
        with Monitor() as mon:
            try:
                read(node, text, False, rng)
            except Exception:  # judged by C06
                return
    if mon.broken:
        ctx.fail("broken-record", f"[{be}] a record that cannot be printed: {mon.broken[0]}", xml=text)
    loud = mon.loud()
    for m, f, bad in faults:
        want = names(m, f)
        ctx.ok()
        if any(bad in r and all(n in r for n in want) for r in loud):
            ctx.hit("lenient-records")
        else:
            ctx.fail("dropped-silently", f"[{be}] no record names the dropped value {bad!r} of {m.cls}.{f.attr} ({'/'.join(want)}); records: {[r[:200] for r in loud[:3]]}", xml=text)
    # the record of one bad value shows its surroundings, and so perhaps another one
    if sum(any(bad in r for _, _, bad in faults) for r in loud) < len(faults):
        ctx.fail("fewer-records", f"[{be}] {len(faults)} values were dropped but only {len(loud)} records written", xml=text, records=[r[:300] for r in loud])
    if mon.printed():
        ctx.fail("prints", f"[{be}] lenient reading printed {mon.printed()[:200]!r}", xml=text)
    if rng.random() < 0.005:
        ctx.sample({"faults": list(raw.values()), "strict": (said or "")[:300], "records": [r[:200] for r in loud[:3]]})


def judge_silence(ctx, mon, what, text):
    ctx.ok()
    if mon.broken:
        ctx.fail("broken-record", f"{what} logged a record that cannot be printed: {mon.broken[0]}", xml=text)
    if mon.loud():
        ctx.fail("noise", f"{what} logged {mon.loud()[0][:300]!r}", xml=text)
    if mon.printed():
        ctx.fail("prints", f"{what} printed {mon.printed()[:300]!r}", xml=text)
    if mon.library_warnings():
        ctx.fail("warns", f"{what} warned {mon.library_warnings()[0][:300]!r}", xml=text)


def silent(ctx):
    from fastkml.enums import Verbosity
    from fastkml.utils import find_all

    rng = ctx.rng
    node = tree(rng)
    text = to_text(expect(node), Lex.random(rng))
    be = rng.choice(("lxml", "stdlib"))
    with backend(be), Monitor() as mon:
        obj = build(node)
        out = obj.to_string(verbosity=rng.choice(list(Verbosity)), precision=rng.choice((None, 4)))
        back = read(node, text, rng.random() < 0.5, rng)
        again = read(node, out, True, rng)
        back == obj  # noqa: B015
        again == back  # noqa: B015
        repr(again)
        str(back)
        list(find_all(back))
        shortcuts(ctx, rng)
        if node.cls == "KML":
            path = ctx.scratch / rng.choice(("s.kml", "s.kmz"))
            obj.write(path)
            if path.suffix == ".kml":
                type(obj).parse(path, validate=False)
            path.unlink()
            ctx.hit("silent-files")
    ctx.hit("silent-documents")
    ctx.distinct(text)
    judge_silence(ctx, mon, f"[{be}] working with a sound document", text)


def shortcuts(ctx, rng):
    """Sound objects made with shortcut arguments, edited and copied."""
    import copy
    import pickle

    import pygeoif

    import fastkml
    from fastkml import gx, styles

    geom = rng.choice((pygeoif.Point(1, 2, 3), pygeoif.LineString([(0, 0), (1, 1)]), pygeoif.MultiPoint([(1, 2), (3, 4)]), None))
    icon = styles.IconStyle(icon_href=rng.choice((None, "", "a.png")))
    pm = fastkml.Placemark(geometry=geom, styles=[styles.Style(styles=[icon])], name=rng.choice((None, "", "x")))
    doc = fastkml.Document(features=[pm])
    doc.append(fastkml.Folder(name="f"))
    pm.name = None
    pm.visibility = rng.choice((True, False, None))
    k = fastkml.KML(features=[doc])
    k.to_string()
    copy.deepcopy(k).to_string()
    pickle.loads(pickle.dumps(icon)).to_string()
    whens = (fastkml.times.KmlDateTime.parse("2020"), fastkml.times.KmlDateTime.parse("2021-01"))
    gx.Track(whens=whens, coords=((1, 2), (2, 3))).to_string()
    ctx.hit("silent-shortcuts")


def again(rng, root):
    """The same violation at several places."""
    import copy

    own = SCHEMA["own"]
    if own.validate(root):
        return
    try:
        spot = root.xpath(rng.choice(list(own.error_log)).path)[0]
    except (IndexError, SCHEMA["etree"].XPathEvalError):
        return
    for _ in range(rng.choice((1, 1, 2))):
        if spot.getparent() is not None and spot.getparent() is not root:
            spot = spot.getparent()
    if spot is not root:
        for _ in range(rng.choice((1, 2))):
            spot.addnext(copy.deepcopy(spot))


def schema(ctx):
    import checks.c16 as c16
    from fastkml import KML, validator

    rng = ctx.rng
    etree = SCHEMA["etree"]
    c16.SCHEMA.update(SCHEMA)
    n = c16.model(rng)
    with backend("lxml"):
        text = build(n).to_string()
        root = etree.fromstring(text)
        if rng.random() < 0.8:
            for _ in range(rng.choice((1, 1, 2, 4))):
                c16.mutate(rng, root)
            if rng.random() < 0.4:
                again(rng, root)
        own = SCHEMA["own"]
        data = etree.tostring(root, encoding="UTF-8")
        root = etree.fromstring(data)
        ok = own.validate(root)
        want = [] if ok else [e.message for e in own.error_log]
        via = rng.choice(("element", "parse"))
        with Monitor() as mon:
            try:
                if via == "element":
                    validator.validate(element=root)
                else:
                    KML.parse(io.BytesIO(data), strict=False, validate=True)
            except AssertionError:
                pass
            except Exception as e:
                ctx.fail("validation-error", f"[{via}] validation raised {type(e).__name__}: {e}", xml=data.decode())
                return
    if mon.broken:
        ctx.fail("broken-record", f"[{via}] a record that cannot be printed: {mon.broken[0]}", xml=data.decode())
    loud = mon.loud()
    if mon.printed():
        ctx.fail("prints", f"validation printed {mon.printed()[:200]!r}", xml=data.decode())
    ctx.ok(repr(want) if want else None)
    if ok:
        ctx.hit("silent-validations")
        if via == "element":
            judge_silence(ctx, mon, "validation of a valid document", data.decode())
        return
    ctx.hit("validation-errors", len(want))
    left = list(loud)
    for msg in want:
        hit = next((r for r in left if msg in r), None)
        if hit is None:
            ctx.fail("violation-not-logged", f"[{via}] the schema violation {msg[:200]!r} was not logged; records: {[r[:120] for r in loud[:3]]}", xml=data.decode())
            return
        left.remove(hit)


COORD = ("a b c", "1 b 3", "1", "1 2 3 4", "1;2;3", "1.2.3 4 5", "--1 2 3", "%s %d 3", "{0} 1 2")


def track(ctx):
    """Bad times, positions and angles of a track."""
    from fastkml import Placemark
    from fastkml.exceptions import KMLParseError
    from fastkml.gx import MultiTrack, Track
    from vk.spec import GXURI, KMLURI

    rng = ctx.rng
    n = rng.choice((1, 2, 3, 6))
    lists = {"when": [f"20{i:02d}-01-01T00:00:00Z" for i in range(n)], "coord": [f"{i} {i}.5 7" for i in range(n)], "angles": [f"{i} 0 0" for i in range(n)]}
    faults = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        name, i = rng.choice(list(lists)), rng.randrange(n)
        if any(f[:2] == (name, i) for f in faults):
            continue
        bad = rng.choice(BAD["dt"] if name == "when" else COORD)
        lists[name][i] = bad
        faults.append((name, i, bad))
    body = "".join(f"<{'gx:' if k != 'when' else ''}{k}>{v}</{'gx:' if k != 'when' else ''}{k}>" for k, vs in lists.items() for v in vs)
    decl = f'xmlns="{KMLURI}" xmlns:gx="{GXURI}"'
    cls = rng.choice((Track, MultiTrack, Placemark))
    if cls is Track:
        text = f"<gx:Track {decl}>{body}</gx:Track>"
    elif cls is MultiTrack:
        text = f"<gx:MultiTrack {decl}><gx:Track>{body}</gx:Track></gx:MultiTrack>"
    else:
        text = f"<Placemark {decl}><gx:Track>{body}</gx:Track></Placemark>"
    be = rng.choice(("lxml", "stdlib"))
    ctx.hit("tracks")
    with backend(be):
        with Monitor() as mon:
            try:
                cls.from_string(text)
                said = None
            except KMLParseError as e:
                said = str(e)
            except Exception:
                said = None
        ctx.ok(text)
        if said is not None and not any(name in said and bad in said for name, _, bad in faults):
            ctx.fail("strict-message", f"[{be}] the error names none of the bad values {faults}: {said[:600]}", xml=text)
        with Monitor() as mon:
            try:
                cls.from_string(text, strict=False)
            except Exception:
                return
    if mon.broken:
        ctx.fail("broken-record", f"[{be}] a record that cannot be printed: {mon.broken[0]}", xml=text)
    loud = mon.loud()
    for name, _, bad in faults:
        ctx.ok()
        if not any(name in r and bad in r for r in loud):
            ctx.fail("dropped-silently", f"[{be}] no record names the dropped {name} {bad!r}; records: {[r[:200] for r in loud[:3]]}", xml=text)
    if len(loud) < len(faults):
        ctx.fail("fewer-records", f"[{be}] {len(faults)} values of a track were dropped but only {len(loud)} records written", xml=text, records=[r[:300] for r in loud])
    if mon.printed():
        ctx.fail("prints", f"[{be}] lenient reading printed {mon.printed()[:200]!r}", xml=text)
