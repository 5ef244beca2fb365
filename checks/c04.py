"""C04: verbosity levels differ only in the defaults they spell out."""

from vk.common import *

RULE = ("every class with every property unset, set to its default and set to other values, and random documents, are written at each verbosity; the output is compared with the "
        "reference serialization at that level (defaults from the KML schema), re-read outputs of the three levels are compared after filling in defaults, and the objects are "
        "compared before and after; non-trivial: the three levels' texts are not all the same")
NEED = {"level:terse": 500, "level:normal": 500, "level:verbose": 500, "differing": 300}
ASSUMPTIONS = ["the defaults in vk/spec.py were taken from the OGC KML 2.2 schema and the KML reference"]


def cases(tier, seed):
    yield from sweep_cases(seed)
    yield from random_cases(16000 if tier == "quick" else 100000)


def filled(n):
    n = n.copy()
    for m in n.walk():
        for f in SPECS[m.cls].fields:
            if f.default is not None and m.get(f.attr) is None:
                m.f[f.attr] = f.default
    return n


def run(ctx, case_id, node):
    from fastkml.enums import Verbosity

    rng = ctx.rng
    if node is None:
        node = tree(rng)
        # values that equal the default are what terse is about
        for m in node.walk():
            for f in SPECS[m.cls].fields:
                if f.default is not None and rng.random() < 0.2:
                    m.f[f.attr] = f.default
    be = rng.choice(("lxml", "stdlib"))
    cls = SPECS[node.cls].pycls
    with backend(be):
        obj = build(node)
        before = canon(observe(obj))
        texts, back = {}, {}
        order = ["terse", "normal", "verbose"]
        rng.shuffle(order)
        precision = rng.choice((None, None, 3))
        for level in order:
            ctx.hit("level:" + level)
            text = obj.to_string(verbosity=Verbosity[level], precision=precision)
            el = obj.etree_element(verbosity=Verbosity[level], precision=precision)
            texts[level] = text
            check_output(ctx, "level-output-differs:" + level, node, text, verbosity=level, precision=precision)
            bad = compare(expect(node, verbosity=level), el, precision=precision)
            ctx.ok(n=2)
            if bad:
                ctx.fail("level-element-differs:" + level, "; ".join(bad[:3]), model=node)
            if precision is None:
                back[level] = observe(cls.from_string(text), parsed=True)
        if canon(observe(obj)) != before:
            ctx.fail("object-changed", f"writing changed the object: {diff(before, canon(observe(obj)))}", model=node)
        if obj.to_string(precision=precision) != texts["normal"]:
            ctx.fail("default-level", "the default verbosity is not normal", model=node)
        ctx.ok(n=2)
    if len(set(texts.values())) > 1:
        ctx.hit("differing")
        ctx.distinct(texts["verbose"] + texts["terse"])
    if back:
        forms = {k: canon(filled(v), group=True, angles=True) for k, v in back.items()}
        ctx.ok()
        for k in ("terse", "verbose"):
            if forms[k] != forms["normal"]:
                ctx.fail("levels-disagree", f"{k} and normal describe different documents: {diff(forms['normal'], forms[k])}",
                         terse=texts["terse"], verbose=texts["verbose"])
    if rng.random() < 0.005:
        ctx.sample(texts["verbose"][:700])
