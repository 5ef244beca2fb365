"""C03: write then read is the identity; writing again is a fixpoint."""

from vk.common import *

RULE = ("every class with every property and edge value and random documents are written, read back and written again, by either XML library, pretty printed or not, some with white space around the texts given; "
        "the re-read objects are compared with the original by == and by all public attributes, and the two texts byte for byte; non-trivial: distinct written text")
NEED = {"round-trips": 1000, "eq-true": 500, "spaced": 100, "spaced-fields": 50}
ASSUMPTIONS = ["children of different kinds may be regrouped by kind", "a track item without angles reads as zero angles"]


def cases(tier, seed):
    yield from sweep_cases(seed)
    for cls in ALL:
        for fld in SPECS[cls].fields:
            if fld.kind in ("text", "ntext"):
                yield f"spaced:{cls}.{fld.attr}", (cls, fld.attr)
    yield from random_cases(20000 if tier == "quick" else 150000)


def regrouped(n, order=None):
    """The model as reading returns it: children by kind, angles filled in."""
    n = n.copy()
    for fld in SPECS[n.cls].fields:
        v = n.get(fld.attr)
        if v is None:
            continue
        if fld.kind == "child":
            n.f[fld.attr] = regrouped(v)
        elif fld.kind == "children":
            kids = [regrouped(x) for x in v]
            n.f[fld.attr] = [x for c in fld.classes for x in kids if x.cls == c]
        elif fld.kind == "track" and any(a is not None for _, _, a in v):
            n.f[fld.attr] = [(w, c, a if a is not None else (0.0, 0.0, 0.0)) for w, c, a in v]
    return n


def spaced(ctx, rng, node, one=None):
    """Texts given to the constructors with white space around them."""
    for m in node.walk():
        for fld in SPECS[m.cls].fields:
            if fld.kind in ("text", "ntext") and m.get(fld.attr) and (rng.random() < 0.4 if one is None else (m is node and fld.attr == one)):
                m.put(fld.attr, rng.choice((" ", "\n", "\t ", "")) + m.get(fld.attr) + rng.choice((" ", "  ", "\n ")))
    node = regrouped(no_repeats(node))
    for m in node.walk():
        for f in SPECS[m.cls].fields:
            if f.kind == "track" and m.get(f.attr):
                m.put(f.attr, [(w, c, a or (0.0, 0.0, 0.0)) for w, c, a in m.get(f.attr)])
    if canon(node) != canon(node, drop_falsy=True):
        return
    obj = build(node)
    text = obj.to_string()
    again = type(obj).from_string(text)
    ctx.hit("spaced")
    ctx.ok(text)
    if not (again == obj) or canon(observe(again)) != canon(observe(obj)):
        ctx.fail("spaced-unequal", f"read back differs: {diff(canon(observe(obj)), canon(observe(again)))}", xml=text)
    if again.to_string() != text:
        ctx.fail("spaced-fixpoint", "outputs differ", first=text, second=again.to_string())


def run(ctx, case_id, node):
    rng = ctx.rng
    if case_id.startswith("spaced:"):
        cls, attr = node
        gen = g.Gen(rng, fill=0.5, max_depth=2)
        for _ in range(8):
            n = gen.node(cls)
            if not n.get(attr):
                n.put(attr, gen.scalar(SPECS[cls].by_attr[attr]) or "x")
            if canon(n) == canon(n, drop_falsy=True):
                ctx.hit("spaced-fields")
                return spaced(ctx, rng, n, attr)
        return
    if node is None:
        node = tree(rng, big=True)
        if rng.random() < 0.1:
            return spaced(ctx, rng, node)
    cls = SPECS[node.cls].pycls
    wbe, rbe = rng.choice(("lxml", "stdlib")), rng.choice(("lxml", "stdlib"))
    pretty = rng.random() < 0.5
    model = regrouped(node)
    with backend(wbe):
        obj = build(node)
        text = obj.to_string(prettyprint=pretty)
    with backend(rbe):
        again = cls.from_string(text)
    with backend(wbe):
        text2 = again.to_string(prettyprint=pretty)
        third = cls.from_string(text2)
        text3 = third.to_string(prettyprint=pretty)
    ctx.hit("round-trips")
    want = canon(node, group=True, angles=True, drop_falsy=True)
    got = canon(observe(again, parsed=True), group=True, angles=True)
    ctx.ok(text)
    if want != got:
        ctx.fail("read-back-differs", f"[{wbe}->{rbe}] {diff(want, got)}", xml=text)
        return
    if text2 != text3:
        ctx.fail("not-a-fixpoint", f"[{wbe}->{rbe}] second and third output differ", first=text2, second=text3)
    if not (again == third):
        ctx.fail("reread-unequal", "reading the output of a read tree gives an unequal tree", xml=text)
    ctx.ok(n=2)
    ang = any(f.kind == "track" and any(a is None for _, _, a in n.get(f.attr) or []) for n in node.walk() for f in SPECS[n.cls].fields)
    if not ang:
        # reading returns what building in the reading's order gives
        same = build(model)
        ctx.ok()
        if same == again and again == same:
            ctx.hit("eq-true")
        elif canon(model) == canon(model, drop_falsy=True):
            ctx.fail("read-back-unequal", f"[{wbe}->{rbe}] read tree != tree built from the same values", xml=text)
        if canon(model) == canon(node) and text != text2:
            ctx.fail("second-output-differs", f"[{wbe}->{rbe}] first and second output differ", first=text, second=text2)
        ctx.ok()
    if rng.random() < 0.01:
        ctx.sample(text[:800])
