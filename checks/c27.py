"""C27: work leaves nothing behind."""

import contextlib
import enum
import gc
import importlib
import io
import os
import sys
import threading
import warnings
import weakref
import zipfile
from pathlib import Path

from vk.common import *
from vk.faults import BAD, sites
from vk.spec import KMLURI
from vk.xmltext import Lex, model_text, to_text

RULE = ("random documents, sound and with bad values, damaged or impossible to write, are read from strings, paths, streams, open files and archives, built, written, compared, searched, printed and validated, with success and with failure; after each history "
        "weak references to every object that was made must be dead once the caller lets go, and the open file descriptors, unclosed files reported by the interpreter, files in the working and temporary directories and threads must be those of before; files the caller "
        "opened must still be open; fresh documents are worked through thousands of times while the number of living objects and allocated blocks is sampled and must not grow with the number of rounds; non-trivial: distinct (operations, document)")
NEED = {"histories": 2000, "objects-released": 20000, "failed-operations": 1500, "files-watched": 1500, "caller-files": 300, "rounds": 5000, "growth-series": 8}
ASSUMPTIONS = ["bounded caches of fewer than about a thousand entries are allowed", "the collector of the interpreter may be needed to release objects"]


def cases(tier, seed):
    yield from random_cases(3200 if tier == "quick" else 30000, "history")
    for i, kind in enumerate(GROWTH):
        for be in ("lxml", "stdlib"):
            yield f"growth:{kind}:{be}", (kind, be)


def setup(ctx):
    import tempfile

    own = ctx.scratch / "tmp"
    own.mkdir()
    os.environ["TMPDIR"], tempfile.tempdir = str(own), None
    gc.collect()


def parts(obj):
    """All library objects reachable from one, by its own traversal."""
    seen, todo, out = set(), [obj], []
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, (list, tuple, set, frozenset)):
            todo += o
        elif isinstance(o, dict):
            todo += o.values()
        elif type(o).__module__.split(".")[0] == "fastkml" and not isinstance(o, (type, enum.Enum)):
            with contextlib.suppress(TypeError):
                out.append(weakref.ref(o))
            todo += list(getattr(o, "__dict__", {}).values())
    return out


def fds():
    out = {}
    for f in os.listdir("/proc/self/fd"):
        with contextlib.suppress(OSError):
            out[f] = os.readlink(f"/proc/self/fd/{f}")
    return {k: v for k, v in out.items() if "/proc/" not in v}


def listing(*dirs):
    return sorted(str(p) for d in dirs for p in Path(d).rglob("*"))


def steps(rng, ctx, node, text, mine):
    """Operations on one document: name -> callable returning something to let go of."""
    import fastkml
    from fastkml import KML, utils, validator
    from fastkml.enums import Verbosity

    cls = SPECS[node.cls].pycls
    strict = rng.random() < 0.5
    d = ctx.scratch / "c27"
    d.mkdir(exist_ok=True)
    ops = {
        "build": lambda: build(node),
        "string": lambda: cls.from_string(text, strict=strict),
        "bytes": lambda: cls.from_string(text.encode(), strict=strict),
        "write-read": lambda: cls.from_string(build(node).to_string(verbosity=rng.choice(list(Verbosity)))),
        "element": lambda: (lambda o: (o, o.etree_element()))(build(node)),
        "find": lambda: list(utils.find_all(build(node))),
        "find-some": lambda: list(utils.find_all(build(node), **rng.choice(({"name": "x"}, {"id": None}, {"visibility": True}, {"nosuch": 1})))),
        "find-first": lambda: (lambda o: (o, utils.find(o, id=rng.choice(("x", None)))))(build(node)),
        "compare": lambda: (build(node) == cls.from_string(text, strict=strict)),
        "print": lambda: (repr(build(node)), str(cls.from_string(text, strict=strict))),
        "validate": lambda: build(node).validate(),
        "shadow": lambda: validator.validate(element=build(node).etree_element()),
        "damaged": lambda: cls.from_string(text[: rng.randrange(len(text))]),
        "unknown-type": lambda: fastkml.Folder(features=[object()]).to_string(),
    }
    if node.cls != "KML":
        return ops

    def impossible(path):
        o = build(node)
        bad = fastkml.Placemark(name="\x00\ud800")
        o.append(bad)
        o.write(path)

    def caller(mode):
        p = d / "in.kml"
        p.write_text(text, encoding="utf-8")
        mine.append(f := open(p, mode, **({"encoding": "utf-8"} if mode == "r" else {})))  # noqa: SIM115
        return KML.parse(f, strict=strict, validate=False)

    def path():
        p = d / "in.kml"
        p.write_text(text, encoding="utf-8")
        return KML.parse(p if rng.random() < 0.5 else str(p), strict=strict, validate=rng.choice((None, True, False)))

    def archive():
        p = d / "in.kmz"
        with zipfile.ZipFile(p, "w") as z:
            z.writestr("doc.kml", text)
        with zipfile.ZipFile(p) as z, z.open("doc.kml") as f:
            return KML.parse(f, strict=strict, validate=False)

    def stream():
        mine.append(b := io.BytesIO(text.encode()))
        return KML.parse(b, strict=strict, validate=False)

    def broken():
        p = d / "cut.kml"
        p.write_text(text[: rng.randrange(len(text))], encoding="utf-8")
        return KML.parse(p, strict=strict)

    ops.update({
        "path": path, "archive": archive, "stream": stream, "caller-rb": lambda: caller("rb"), "caller-text": lambda: caller("r"), "broken-file": broken,
        "missing-file": lambda: KML.parse(d / "nowhere.kml"),
        "not-a-kml": lambda: (d / "x.kml").write_bytes(b"\x00\x01 no xml") and KML.parse(d / "x.kml"),
        "write": lambda: build(node).write(d / "out.kml"), "write-kmz": lambda: build(node).write(d / "out.kmz"),
        "write-again": lambda: [build(node).write(d / "out.kml", precision=p) for p in (None, 2)],
        "write-nowhere": lambda: build(node).write(d / "no" / "such" / "dir.kml"),
        "write-nowhere-kmz": lambda: build(node).write(d / "no" / "such" / "dir.kmz"),
        "write-onto-directory": lambda: build(node).write(d),
        "impossible": lambda: impossible(d / "bad.kml"), "impossible-kmz": lambda: impossible(d / "bad.kmz"),
        "validate-file": lambda: validator.validate(file_to_validate=str(path() and d / "in.kml")),
    })
    return ops


EXPECTED = {"in.kml", "in.kmz", "cut.kml", "x.kml", "out.kml", "out.kmz"}


def history(ctx):
    rng = ctx.rng
    node = no_repeats(tree(rng))
    ps = sites(node)
    raw = None
    if ps and rng.random() < 0.4:
        m, f, k = rng.choice(ps)
        raw = {(id(m), f.attr): rng.choice(BAD[k])}
    text = to_text(expect(node, raw=raw) if raw else expect(node), Lex.plain())
    be = rng.choice(("lxml", "stdlib"))
    mine = []
    done = []
    with backend(be):
        ops = steps(rng, ctx, node, text, mine)
        names = [rng.choice(sorted(ops)) for _ in range(rng.choice((1, 2, 4, 6)))]
        home = (ctx.scratch,)
        before = listing(*home)
        fd0, threads0 = fds(), threading.active_count()
        refs = []
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always", ResourceWarning)
            for name in names:
                try:
                    got = ops[name]()
                    refs += parts(got)
                    done.append(name)
                except Exception:  # noqa: BLE001
                    ctx.hit("failed-operations")
                    done.append(name + "!")
                got = None
        fd1 = fds()
        threads1 = threading.active_count()
        unclosed = [str(w.message) for w in seen if issubclass(w.category, ResourceWarning)]
    ctx.hit("histories")
    ctx.distinct((done, text))
    ctx.ok(n=5)
    mine_fds = {str(f.fileno()) for f in mine if not isinstance(f, io.BytesIO) and not f.closed}
    for f in mine:
        ctx.hit("caller-files")
        if f.closed:
            ctx.fail("caller-file-closed", f"[{be}] {done}: a file the caller opened was closed", xml=text)
        f.close()
    extra = {k: v for k, v in fd1.items() if k not in fd0 and k not in mine_fds}
    if extra:
        ctx.fail("descriptor-left", f"[{be}] {done}: still open: {sorted(extra.values())}", xml=text)
    if unclosed:
        ctx.fail("file-not-closed", f"[{be}] {done}: {unclosed[:3]}", xml=text)
    if threads1 != threads0:
        ctx.fail("thread-left", f"[{be}] {done}: {threads1 - threads0} threads more", xml=text)
    after = listing(*home)
    new = [p for p in after if p not in before and Path(p).name not in EXPECTED and Path(p).name != "c27"]
    ctx.hit("files-watched")
    if new:
        ctx.fail("file-left", f"[{be}] {done}: {[Path(p).name for p in new[:5]]}", xml=text)
    for p in new:
        with contextlib.suppress(OSError):
            Path(p).unlink()
    alive = [r() for r in refs if r() is not None]
    if alive:
        alive = None
        gc.collect()
        alive = [r() for r in refs if r() is not None]
    ctx.hit("objects-released", len(refs) - len(alive))
    if alive:
        o = alive[0]
        holders = [type(x).__name__ for x in gc.get_referrers(o) if x is not alive][:4]
        ctx.fail("object-kept", f"[{be}] {done}: {len(alive)} of {len(refs)} objects are still alive, a {type(o).__name__} held by {holders}", xml=text)
        del o
    alive = None


def sound(rng, i):
    node = no_repeats(g.Gen(rng, fill=0.25, max_depth=2).kml())
    for m in node.walk():
        if "name" in SPECS[m.cls].by_attr:
            m.put("name", f"unique {rng.random()}")
    return node


def bad(rng, i):
    node = sound(rng, i)
    ps = sites(node)
    if not ps:
        return model_text(node)
    m, f, k = rng.choice(ps)
    return to_text(expect(node, raw={(id(m), f.attr): f"{rng.random()} {rng.choice(BAD[k])}"}), Lex.plain())


def _try(op):
    with contextlib.suppress(Exception):
        op()


def _kml():
    from fastkml import KML

    return KML


GROWTH = {
    "read": lambda rng, i, d: _kml().from_string(model_text(sound(rng, i))),
    "write": lambda rng, i, d: build(sound(rng, i)).to_string(),
    "strict-errors": lambda rng, i, d: _try(lambda: _kml().from_string(bad(rng, i), strict=True)),
    "lenient-errors": lambda rng, i, d: _kml().from_string(bad(rng, i), strict=False),
    "files": lambda rng, i, d: (build(sound(rng, i)).write(d / "g.kml"), _kml().parse(d / "g.kml", validate=False)),
    "namespaces": lambda rng, i, d: _kml().from_string(model_text(sound(rng, i)).replace("http://www.opengis.net/kml/2.2", f"http://ns{rng.random()}.example.org/"), strict=False),
    "damaged": lambda rng, i, d: _try(lambda: _kml().parse(io.BytesIO(model_text(sound(rng, i)).encode()[:-3]), strict=True)),
    "validate": lambda rng, i, d: _try(lambda: build(sound(rng, i)).validate()),
    "search": lambda rng, i, d: list(__import__("fastkml.utils").utils.find_all(build(sound(rng, i)), name=str(rng.random()))),
    "geometries": lambda rng, i, d: geometries(rng),
    "dates": lambda rng, i, d: dates(rng),
}


def geometries(rng):
    import pygeoif
    from fastkml.geometry import create_kml_geometry

    pts = [(rng.random(), rng.random()) for _ in range(4)]
    for gm in (pygeoif.Point(*pts[0]), pygeoif.LineString(pts), pygeoif.Polygon(pts), pygeoif.MultiPoint(pts)):
        k = create_kml_geometry(gm)
        k.to_string(precision=3)
        type(k).from_string(k.to_string()).geometry  # noqa: B018


def dates(rng):
    from fastkml.times import KmlDateTime

    for _ in range(10):
        t = f"{rng.randint(1, 9999):04}-{rng.randint(1, 12):02}-{rng.randint(1, 28):02}T{rng.randint(0, 23):02}:{rng.randint(0, 59):02}:{rng.randint(0, 59):02}.{rng.randint(0, 999999):06}+{rng.randint(0, 13):02}:{rng.randint(0, 59):02}"
        str(KmlDateTime.parse(t))


FLUSH = f'<kml xmlns="{KMLURI}"><Placemark><Point><coordinates>1,2</coordinates></Point></Placemark></kml>'


def sample():
    """Living objects and allocated blocks, the last document worked on being always the same."""
    for _ in range(3):
        k = _kml().parse(io.BytesIO(FLUSH.encode()), strict=True, validate=False)
        _kml().from_string(k.to_string()).to_string()
        _try(lambda: _kml().from_string("<a"))
    del k
    for m in ("lxml._elementpath", "xml.etree.ElementPath"):  # bounded caches of the XML libraries
        with contextlib.suppress(Exception):
            importlib.import_module(m)._cache.clear()
    gc.collect()
    kml = sum(1 for o in gc.get_objects() if str(type(o).__module__).split(".")[0] in ("fastkml", "pygeoif", "xml", "lxml", "logging", "datetime"))
    return sys.getallocatedblocks(), kml


def growth(ctx, kind, be):
    rng = ctx.rng
    rounds = 400 if ctx.tier == "quick" else 2000
    op = GROWTH[kind]
    with backend(be):
        for i in range(rounds * 3):
            op(rng, i, ctx.scratch)
        series = [sample()]
        for _ in range(4):
            for i in range(rounds):
                op(rng, i, ctx.scratch)
            series.append(sample())
    ctx.hit("rounds", rounds * 7)
    ctx.hit("growth-series")
    ctx.ok((kind, be), n=2)
    steps_ = [b[0] - a[0] for a, b in zip(series, series[1:])]
    objs = [b[1] - a[1] for a, b in zip(series, series[1:])]
    ctx.sample({"kind": kind, "library": be, "rounds": rounds, "blocks": steps_, "objects": objs})
    # growing in each interval by a share of the rounds: something is kept per round
    if min(steps_) > rounds * 0.5 or min(objs) > rounds * 0.3:
        ctx.fail("growth", f"[{be}] {kind}: {rounds} rounds keep {steps_} blocks and {objs} objects more, again and again")


def run(ctx, case_id, payload):
    if payload is None:
        history(ctx)
    else:
        growth(ctx, *payload)
