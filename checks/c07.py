"""C07: both XML libraries give the same results."""

import io

from vk.common import *
from vk.faults import BAD, sites
from vk.xmltext import Lex, to_text

RULE = ("every class with every property and edge value, random documents in random spellings and documents with illegal values go through all operations under lxml and under the standard library; "
        "the XML content written, the objects read, the errors raised and the searches are compared pairwise, also when one library writes and the other reads; non-trivial: distinct document")
NEED = {"write-pairs": 1000, "read-pairs": 1000, "error-pairs": 200, "file-pairs": 50, "both-raise": 100}
ASSUMPTIONS = ["malformed XML and schema validation are out of scope: lxml recovers from the one and the standard library lacks the other"]
BES = ("lxml", "stdlib")


def cases(tier, seed):
    yield from sweep_cases(seed)
    yield from random_cases(20000 if tier == "quick" else 120000)


def outcome(fn):
    try:
        return ("ok", fn())
    except Exception as e:
        return ("raise", type(e).__name__)


def run(ctx, case_id, node):
    from fastkml.enums import Verbosity

    rng = ctx.rng
    if node is None:
        node = tree(rng, big=True)
    cls = SPECS[node.cls].pycls
    level = rng.choice(list(Verbosity))
    precision = rng.choice((None, None, rng.randint(0, 9)))
    pretty = rng.random() < 0.5
    texts, objs = {}, {}
    order = list(BES)
    rng.shuffle(order)
    shared = build(node) if rng.random() < 0.3 else None
    for be in order:
        with backend(be):
            o = shared or build(node)
            objs[be] = o
            texts[be] = outcome(lambda: o.to_string(prettyprint=pretty, verbosity=level, precision=precision))
    a, b = (t[1] if t[0] == "raise" else info_text(t[1]) for t in (texts["lxml"], texts["stdlib"]))
    ctx.hit("write-pairs")
    ctx.ok(repr(b))
    if a != b:
        ctx.fail("outputs-differ", info_diff(a, b) if isinstance(a, tuple) and isinstance(b, tuple) else f"{a} vs {b}", lxml=texts["lxml"], stdlib=texts["stdlib"])
        return
    if not (objs["lxml"] == objs["stdlib"]):
        ctx.fail("built-unequal", "objects built under the two libraries differ", model=node)
    # read: the same text, spelled at random, maybe with illegal values
    raw = {}
    places = sites(node)
    if places and rng.random() < 0.3:
        for m, f, k in rng.sample(places, min(len(places), rng.choice((1, 2, 4)))):
            raw[(id(m), f.attr)] = rng.choice(BAD[k])
    lx = Lex.random(rng)
    text = to_text(expect(node, raw=raw), lx)
    strict = rng.random() < 0.6
    res = {}
    mode = rng.choice(("bytes", "string")) if node.cls == "KML" else "string"
    for be in BES:
        with backend(be):
            if mode == "bytes":
                res[be] = outcome(lambda: cls.parse(io.BytesIO(text.encode("utf-8")), strict=strict, validate=False))
            else:
                res[be] = outcome(lambda: cls.from_string(text, strict=strict))
    ctx.hit("read-pairs")
    ctx.ok(n=2)
    x, y = res["lxml"], res["stdlib"]
    if raw:
        ctx.hit("error-pairs")
    if x[0] != y[0] or (x[0] == "raise" and x[1] != y[1]):
        ctx.fail("outcomes-differ", f"{x} vs {y}"[:500], xml=text)
        return
    if x[0] == "raise":
        ctx.hit("both-raise")
        return
    ca, cb = canon(observe(x[1], parsed=True)), canon(observe(y[1], parsed=True))
    if ca != cb or not (x[1] == y[1]):
        ctx.fail("read-differs", f"{diff(ca, cb)}", xml=text)
        return
    # crossed: lxml writes and the standard library reads, and the reverse
    if not raw:
        want = canon(node, group=True, angles=True, drop_falsy=True)
        if precision is None and level is Verbosity.normal:
            for w, r in (("lxml", "stdlib"), ("stdlib", "lxml")):
                with backend(r):
                    got = canon(observe(cls.from_string(texts[w][1]), parsed=True), group=True, angles=True)
                ctx.ok()
                ctx.hit("crossed")
                if got != want:
                    ctx.fail("crossed-differs", f"{w}->{r}: {diff(want, got)}", xml=texts[w][1])
    if node.cls == "KML" and rng.random() < 0.3:
        data = {}
        for be in BES:
            with backend(be):
                f = ctx.scratch / f"{be}.kml"
                objs[be].write(f, prettyprint=pretty, precision=precision, verbosity=level)
                data[be] = info_text(f.read_bytes())
        ctx.hit("file-pairs")
        ctx.ok()
        if data["lxml"] != data["stdlib"]:
            ctx.fail("files-differ", info_diff(data["lxml"], data["stdlib"]))
        if data["lxml"] != a:
            ctx.fail("file-and-string-differ", info_diff(a, data["lxml"]))
    if rng.random() < 0.005:
        ctx.sample(text[:600])
