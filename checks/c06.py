"""C06: strict reading reports bad values, lenient reading only drops them."""

import io

from vk.common import *
from vk.faults import BAD, recased, sites
from vk.gen import is_scalar, pool
from vk.xmltext import Lex, to_text

RULE = ("every typed property of every class is spelled with every illegal value of its type (one at a time), and random documents with 1 to 12 illegal values at random places; strict reading must raise "
        "KMLParseError, lenient reading must return exactly the document without those values; empty values of every property must read as not given in both modes; enumerations in another letter case must fail in strict and be understood in lenient mode; "
        "non-trivial: distinct faulty text")
NEED = {"blank": 1000, "strict-errors": 1000, "lenient-reads": 1000, "multi-fault": 300, "recased": 100, "kind:dt": 50, "kind:coords": 50, "kind:enum": 100, "kind:bool": 50,
        "kind:int": 50, "kind:float": 100}
ASSUMPTIONS = ["illegal values are taken from a list of texts no reading of the type accepts; forms Python happens to accept (1_000) are not used",
               "white space in an attribute is not judged"]


BLANK = ("", " ", "\n\t  ")
BLANKABLE = (*BAD, "text")


def cases(tier, seed):
    rng = random.Random(f"c06-{seed}")
    gen = g.Gen(rng, max_depth=2)
    for cls in ALL:
        for fld in SPECS[cls].fields:
            k = fld.kind.removeprefix("A_")
            if k in BAD:
                for i, bad in enumerate(BAD[k]):
                    yield f"single:{cls}.{fld.attr}:{i}", (cls, fld.attr, bad)
            if k in BLANKABLE and (cls, fld.attr) != ("Schema", "id"):
                for i, blank in enumerate(BLANK[:1] if fld.kind.startswith("A_") else BLANK):
                    for be in ("lxml", "stdlib"):
                        yield f"blank:{cls}.{fld.attr}:{i}:{be}", (cls, fld.attr, blank)
    yield from random_cases(24000 if tier == "quick" else 150000, "multi")
    yield from random_cases(4800 if tier == "quick" else 20000, "case")


def read(node, text, strict, rng, ctx):
    cls = SPECS[node.cls].pycls
    if node.cls == "KML" and rng.random() < 0.4:
        ctx.hit("parse")
        return cls.parse(io.BytesIO(text.encode("utf-8")), strict=strict, validate=False)
    return cls.from_string(text, strict=strict)


def blank(ctx, rng, case_id, payload):
    """An empty value counts as not given, in both modes."""
    cls, attr, text = payload
    gen = g.Gen(rng, fill=0.6, max_depth=2)
    node = gen.node(cls)
    fld = SPECS[cls].by_attr[attr]
    if node.get(attr) is None:
        node.put(attr, gen.scalar(fld) if fld.kind != "coords" else gen.coords("LineString"))
        if node.get(attr) is None:
            node.f[attr] = fld.default
    xml = to_text(expect(node, raw={(id(node), attr): text}), Lex.plain())
    node.put(attr, None)
    want = canon(node, group=True, angles=True)
    be = case_id.rpartition(":")[2]
    for strict in (True, False):
        with backend(be):
            try:
                obj = read(node, xml, strict, rng, ctx)
            except Exception as e:
                ctx.fail("blank-raises", f"[{be}] an empty {cls}.{attr} (strict={strict}) raised {type(e).__name__}: {e}", xml=xml)
                continue
            ctx.hit("blank")
            ctx.ok(xml)
            got = canon(observe(obj, parsed=True), group=True, angles=True)
            if want != got:
                ctx.fail("blank-differs", f"[{be}] an empty {cls}.{attr} (strict={strict}): {diff(want, got)}", xml=xml)


def run(ctx, case_id, payload):
    from fastkml.exceptions import KMLParseError

    rng = ctx.rng
    kind = case_id.partition(":")[0]
    if kind == "blank":
        return blank(ctx, rng, case_id, payload)
    raw = {}
    if kind == "single":
        cls, attr, bad = payload
        gen = g.Gen(rng, fill=0.6, max_depth=2)
        node = gen.node(cls)
        fld = SPECS[cls].by_attr[attr]
        if node.get(attr) is None:
            node.put(attr, gen.scalar(fld) if fld.kind != "coords" else gen.coords("LineString"))
            if node.get(attr) is None:
                node.f[attr] = fld.default
        raw[(id(node), attr)] = bad
        faults = [(node, fld)]
        ctx.hit("kind:" + fld.kind.removeprefix("A_"))
    else:
        node = tree(rng)
        places = sites(node)
        if kind == "case":
            places = [p for p in places if p[2] in ("enum", "bool")]
        if not places:
            return
        rng.shuffle(places)
        chosen = places[: rng.choice((1, 1, 2, 3, 5, 12)) if kind == "multi" else 1]
        faults = []
        for m, f, k in chosen:
            if kind == "case":
                t = recased(m.get(f.attr) if k == "enum" else ("true" if m.get(f.attr) else "false"), rng)
                if t is None or (k == "enum" and t in g.ENUMS[f.enum]):
                    return
                raw[(id(m), f.attr)] = t
            else:
                raw[(id(m), f.attr)] = rng.choice(BAD[k])
                ctx.hit("kind:" + k)
            faults.append((m, f))
        if len(faults) > 1:
            ctx.hit("multi-fault")
    lx = Lex.plain() if kind == "single" else Lex(rng, shuffle=rng.random() < 0.5, pad=rng.random() < 0.3, pretty=rng.random() < 0.5)
    text = to_text(expect(node, raw=raw), lx)
    be = rng.choice(("lxml", "stdlib"))
    with backend(be):
        try:
            obj = read(node, text, True, rng, ctx)
        except KMLParseError:
            ctx.hit("strict-errors")
            obj = None
        except Exception as e:
            ctx.fail("other-exception", f"[{be}] strict reading raised {type(e).__name__}: {e}", xml=text, faults=list(raw.values()))
            obj = None
        else:
            ctx.fail("strict-accepts", f"[{be}] strict reading accepted {list(raw.values())}", xml=text, where=[f"{m.cls}.{f.attr}" for m, f in faults])
        ctx.ok(text)
        try:
            obj = read(node, text, False, rng, ctx)
        except Exception as e:
            ctx.fail("lenient-raises", f"[{be}] lenient reading raised {type(e).__name__}: {e}", xml=text, faults=list(raw.values()))
            return
        ctx.hit("lenient-reads")
    if kind == "case":
        ctx.hit("recased")
        want = node
    else:
        for m, f in faults:
            m.put(f.attr, None)
        want = node
    want = canon(want, group=True, angles=True)
    got = canon(observe(obj, parsed=True), group=True, angles=True)
    ctx.ok()
    if want != got:
        ctx.fail("lenient-differs", f"[{be}] {diff(want, got)}", xml=text, faults=[(f"{m.cls}.{f.attr}", raw[(id(m), f.attr)]) for m, f in faults])
    # the document with the bad values left out may be written again
    out = obj.to_string()
    parse(out)
    ctx.ok()
    if rng.random() < 0.01:
        ctx.sample({"faults": list(raw.values()), "xml": text[:500]})
