"""C01: what is written says exactly what the objects hold."""

from vk.common import *

RULE = ("every class alone (minimal, full, each property with each edge value, each child kind, each property missing) and "
        "random documents up to depth 4 (some with shared parts, some with padded texts set on the objects) are built through the public constructors and written by both XML libraries; each "
        "output is parsed by an independent parser and compared with a reference serialization of the abstract model; "
        "a case is non-trivial if the expected document has more than one element, attribute or text")
NEED = {"outputs": 1000, "backend:lxml": 400, "backend:stdlib": 400, "shared-parts": 100, "padded": 500}
ASSUMPTIONS = ["the vocabulary table in vk/spec.py states KML's element and attribute names and types",
               "expat reads the serialized text correctly"]


def cases(tier, seed):
    yield from sweep_cases(seed)
    yield from random_cases(24000 if tier == "quick" else 60000)


def padded(ctx, rng, node, obj):
    """Texts with white space at the ends, set on the objects."""
    for n, o in pairs(node, obj):
        for fld in SPECS[n.cls].fields:
            if fld.kind.removeprefix("A_") == "text" and n.get(fld.attr) is not None and rng.random() < 0.3:
                v = rng.choice((" ", "  ", "")) + n.get(fld.attr) + rng.choice((" ", "   "))
                n.put(fld.attr, v)
                setattr(o, fld.attr, v)
                ctx.hit("padded")


def run(ctx, case_id, node):
    rng = ctx.rng
    make = build
    if node is None:
        node = tree(rng, big=True)
        if rng.random() < 0.15 and share(rng, node) and size(node) < 2000:
            ctx.hit("shared-parts")
            make = build_shared
        elif rng.random() < 0.15 and hollow(rng, node):
            ctx.hit("hollow")
    names = ("lxml", "stdlib") if node is not None and case_id.startswith("sweep") else (rng.choice(("lxml", "stdlib")),)
    pad = not case_id.startswith("sweep") and make is build and rng.random() < 0.2
    for be in names:
        with backend(be):
            obj = make(node)
            if pad:
                padded(ctx, rng, node, obj)
            exp = expect(node)
            pretty = rng.random() < 0.5
            text = obj.to_string(prettyprint=pretty)
            ctx.hit("outputs")
            ctx.hit("backend:" + be)
            bad = compare(exp, parse(text))
            ctx.ok(text if exp.groups or exp.attrs or exp.text else None)
            if bad:
                ctx.fail("output-differs", "; ".join(bad[:4]), model=node, output=text)
            el = obj.etree_element()
            bad = compare(exp, el)
            ctx.ok()
            if bad:
                ctx.fail("element-differs", "; ".join(bad[:4]), model=node)
            if str(obj) != obj.to_string():
                ctx.fail("str-differs", "str() and to_string() differ", model=node)
            if rng.random() < 0.05:
                ctx.sample(text[:800])
            ctx.hit("elements", exp.count())
