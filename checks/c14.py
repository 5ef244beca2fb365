"""C14: equality holds exactly when the content is the same."""

import datetime as dt

from vk.common import *
from vk.gen import gen_dt, is_scalar
from vk.xmltext import model_text

RULE = ("for every property of every class a tree and a copy that differs in that one property (changed, removed, added; items changed, removed, added, reordered), alone and deep inside random documents, are built independently, read from text or edited in place "
        "and compared in both directions with == and !=; equal twins and foreign objects are compared too; non-trivial: distinct (class, property, kind of change, place)")
NEED = {"equal": 2000, "unequal": 4000, "edit:change": 1000, "edit:remove": 300, "edit:add": 300, "edit:swap": 30, "edit:drop-item": 30, "edit:add-item": 100, "foreign": 2000, "other-class": 300, "way:in-place": 500, "way:read": 500, "depth>=3": 200}
ASSUMPTIONS = ["geometries are compared by their positions: the repeated closing position of a ring and positions repeated in a row make no difference, nor do coordinates that agree to nine digits (pygeoif's equality)",
               "numbers that are equal in Python are equal, and so are times of the same instant"]


class Hostile:
    """Compares as nothing in particular."""

    def __eq__(self, other):
        return NotImplemented

    __hash__ = None


def cases(tier, seed):
    for cls in ALL:
        for fld in SPECS[cls].fields:
            for how in ("change", "remove", "add", "swap", "drop-item", "add-item"):
                for k in range(2 if tier == "quick" else 6):
                    yield f"field:{cls}.{fld.attr}:{how}:{k}", (cls, fld.attr, how)
    yield from random_cases(40000 if tier == "quick" else 100000, "deep")
    yield from random_cases(6000 if tier == "quick" else 40000, "twin")


PARTIAL = ("gYear", "gYearMonth", "date")


def first_day(rng):
    return (rng.choice(PARTIAL), dt.date(rng.randrange(1, 9999), 1, 1))


def other_value(rng, fld, v):
    gen = g.Gen(rng)
    if fld.kind.removeprefix("A_") == "dt" and v is not None and v[0] in PARTIAL and v[1].day == 1 and rng.random() < 0.6:
        # the same day with another precision
        return (rng.choice([k for k in PARTIAL if k != v[0] and (k != "gYear" or v[1].month == 1)]), v[1])
    for _ in range(50):
        w = gen.scalar(fld)
        k = fld.kind.removeprefix("A_")
        if k == "dt":
            if v is None or w[0] != v[0]:
                return w
            if isinstance(w[1], dt.datetime):
                if w[1] != v[1]:
                    return w
            elif w[1] != v[1]:
                return w
            continue
        if w != v:
            return w
    return None


def moved(rng, p):
    p = list(p)
    i = rng.randrange(len(p))
    p[i] = p[i] + rng.choice((1.0, -1.0, 0.25, 1e-6 if abs(p[i]) < 200 else 0.01)) if abs(p[i]) < 1e6 else p[i] / 2
    return tuple(p)


def usable(node):
    """Positions are distinct, so that geometry equality sees all of them."""
    for m in node.walk():
        c = m.get("coords")
        if c and any(a == b for a, b in zip(c, c[1:])):
            return False
    return True


def edit(rng, n, attr, how):
    """Change one property of n (in the model); returns a description or None."""
    fld = SPECS[n.cls].by_attr[attr]
    gen = g.Gen(rng, fill=0.3, max_depth=2)
    v = n.get(attr)
    if how == "remove":
        if v is None or (n.cls == "Schema" and attr == "id"):
            return None
        n.put(attr, None)
        return how
    if how == "add":
        if v is not None:
            return None
        w = gen.value(n.cls, fld, 1)
        if w is None or w == "" or w == []:
            return None
        n.put(attr, w)
        return how
    if v is None:
        return None
    if is_scalar(fld):
        if how != "change":
            return None
        w = other_value(rng, fld, v)
        if w is None:
            return None
        n.f[attr] = w
        return how
    if fld.kind == "child":
        if how != "change":
            return None
        alt = [c for c in fld.classes if c != v.cls]
        if alt and v.cls != "Coordinates":
            n.f[attr] = gen.node(rng.choice(alt), 1)
            return how
        return None
    items = list(v)
    ring = fld.kind == "coords" and len(items) > 2 and items[0] == items[-1]
    lo, hi = (1, len(items) - 1) if ring else (0, len(items))
    i = rng.randrange(lo, hi)
    if how == "change":
        if fld.kind == "coords":
            items[i] = moved(rng, items[i])
        elif fld.kind == "track":
            w, c, a = items[i]
            part = rng.randrange(3)
            if part == 0:
                w = other_value(rng, SPECS["TimeStamp"].by_attr["timestamp"], w)
            elif part == 1:
                c = moved(rng, c)
            else:
                a = moved(rng, a) if a is not None else (1.0, 2.0, 3.0)
            items[i] = (w, c, a)
        else:
            alt = [c for c in fld.classes if c != items[i].cls]
            if not alt:
                return None
            items[i] = gen.node(rng.choice(alt), 1)
    elif how == "drop-item":
        if fld.kind == "coords" and len(items) < 5 and n.cls != "Coordinates":
            return None
        if len(items) < 2 or (fld.kind == "coords" and len(items) < 3):
            return None
        items.pop(i)
    elif how == "add-item":
        if fld.kind == "coords":
            if len(items) < 2:
                return None
            items.insert(max(1, i), moved(rng, items[i]))
        elif fld.kind == "track":
            items.insert(i, g.Gen(rng).track_items()[0])
            if len(items[i][1]) != len(items[i - 1 if i else 1][1]):
                return None
        else:
            items.insert(i, gen.node(rng.choice(fld.classes), 1))
    elif how == "swap":
        if hi - lo < 2:
            return None
        j = rng.choice([k for k in range(lo, hi) if k != i])
        items[i], items[j] = items[j], items[i]
    n.f[attr] = items
    return how


def depth_of(root, node):
    if root is node:
        return 0
    for v in root.f.values():
        for x in v if isinstance(v, list) else (v,):
            if isinstance(x, Node):
                d = depth_of(x, node)
                if d is not None:
                    return d + 1
    return None


def same_place(a, b, node):
    """The node of copy b at the place node has in a."""
    for x, y in zip(a.walk(), b.walk()):
        if x is node:
            return y
    raise AssertionError


def locate(obj, root, node):
    """The real object at the place the node has in the model."""
    if root is node:
        return obj
    for k, v in root.f.items():
        if isinstance(v, Node):
            r = locate(getattr(obj, k), v, node)
            if r is not None:
                return r
        elif isinstance(v, list):
            for i, x in enumerate(v):
                if isinstance(x, Node):
                    r = locate(getattr(obj, k)[i], x, node)
                    if r is not None:
                        return r
    return None


def in_place(obj, root, target, changed, attr):
    """Carry the edit of the model out on the real object."""
    from vk.build import kwargs_of

    o = locate(obj, root, target)
    kw = kwargs_of(changed)
    new = kw.get(attr)
    if new is None:
        fld = SPECS[target.cls].by_attr[attr]
        new = [] if fld.kind in ("children", "coords", "track") else None
    setattr(o, attr, new)


def unequal(ctx, a, b, what, **kw):
    ctx.ok(n=4)
    ctx.hit("unequal")
    if (a == b) is not False or (b == a) is not False:
        ctx.fail("equal-despite-difference", f"{what}: a == b is {a == b}, b == a is {b == a}", **kw)
        return False
    if (a != b) is not True or (b != a) is not True:
        ctx.fail("ne-wrong", f"{what}: a != b is {a != b}, b != a is {b != a}", **kw)
        return False
    return True


def equal(ctx, a, b, what, **kw):
    ctx.ok(n=4)
    ctx.hit("equal")
    if (a == b) is not True or (b == a) is not True:
        ctx.fail("unequal-without-difference", f"{what}: a == b is {a == b}, b == a is {b == a}", **kw)
        return False
    if (a != b) is not False or (b != a) is not False:
        ctx.fail("ne-wrong", f"{what}: a != b is {a != b}", **kw)
        return False
    return True


def foreign(ctx, rng, obj, node):
    for x in (None, 1, "x", object(), {}, [obj], type(obj), node, Hostile(), obj.to_string()):
        ctx.ok(n=2)
        ctx.hit("foreign")
        if (obj == x) is not False or (x == obj) is not False or (obj != x) is not True:
            ctx.fail("equals-foreign", f"{node.cls} == {type(x).__name__}")
    o = build(g.Gen(rng).any_node(minimal=True))
    if type(o) is not type(obj):
        ctx.hit("other-class")
        unequal(ctx, obj, o, f"{node.cls} and {type(o).__name__}")


def run(ctx, case_id, payload):
    rng = ctx.rng
    kind = case_id.partition(":")[0]
    if kind == "twin":
        node = tree(rng)
        be = rng.choice(("lxml", "stdlib"))
        with backend(be):
            text = model_text(node)
            cls = SPECS[node.cls].pycls
            a, b = build(node), build(node.copy())
            equal(ctx, a, b, "built twice", model=node)
            equal(ctx, a, a, "itself", model=node)
            p, q = cls.from_string(text), cls.from_string(text)
            equal(ctx, p, q, "read twice", xml=text)
            foreign(ctx, rng, a, node)
            foreign(ctx, rng, p, node)
        ctx.distinct(("twin", text))
        return
    if kind == "field":
        cls, attr, how = payload
        gen = g.Gen(rng, fill=0.5, max_depth=2)
        node = gen.node(cls)
        fld = SPECS[cls].by_attr[attr]
        if how != "add" and node.get(attr) is None:
            node.put(attr, gen.value(cls, fld, 0))
            if node.get(attr) is None and is_scalar(fld) and fld.default is not None:
                node.f[attr] = fld.default
        if how in ("drop-item", "swap") and isinstance(node.get(attr), list) and len(node.get(attr)) < 2 and fld.kind == "children":
            node.f[attr] = node.f[attr] + [gen.node(rng.choice(fld.classes), 1) for _ in range(2)]
        if how == "add":
            node.put(attr, None) if not (cls == "Schema" and attr == "id") else None
        target = node
    else:
        node = tree(rng)
        nodes = list(node.walk())
        nodes.sort(key=lambda n: -(depth_of(node, n) or 0))
        target = rng.choice(nodes[: max(3, len(nodes) // 2)])
        attr = rng.choice(SPECS[target.cls].fields).attr if rng.random() < 0.4 or not target.f else rng.choice(sorted(target.f))
        if isinstance(target.get(attr), list):
            how = rng.choice(("change", "remove", "swap", "drop-item", "add-item"))
        else:
            how = "add" if target.get(attr) is None else rng.choice(("change", "change", "remove"))
    fld = SPECS[target.cls].by_attr[attr]
    if how == "change" and rng.random() < 0.4:
        if fld.kind.removeprefix("A_") == "dt" and target.get(attr) is not None:
            target.f[attr] = first_day(rng)
        elif fld.kind == "track" and target.get(attr):
            target.f[attr] = [(first_day(rng), c, a) for _, c, a in target.f[attr]]
    for m in node.walk():  # no position twice in a row
        c = m.get("coords")
        if c:
            m.f["coords"] = [p for i, p in enumerate(c) if i == 0 or p != c[i - 1]]
    changed = node.copy()
    place = same_place(node, changed, target)
    if edit(rng, place, attr, how) is None or not usable(changed):
        return
    if canon(changed) == canon(node):
        return
    ctx.hit("edit:" + how)
    d = depth_of(node, target)
    if d >= 3:
        ctx.hit("depth>=3")
    ctx.distinct((target.cls, attr, how, d, rng.random()))
    what = f"{target.cls}.{attr} {how} at depth {d}"
    with backend(rng.choice(("lxml", "stdlib"))):
        way = rng.choice(("built", "in-place", "read"))
        ctx.hit("way:" + way)
        if way == "built":
            a, b = build(node), build(changed)
        elif way == "in-place":
            a, b = build(node), build(node)
            if not equal(ctx, a, b, what + ", before the edit", model=node):
                return
            in_place(b, node, target, place, attr)
        else:
            # parts that are not written cannot make a difference here
            if canon(changed, group=True, angles=True, drop_falsy=True) == canon(node, group=True, angles=True, drop_falsy=True):
                return
            cls = SPECS[node.cls].pycls
            a, b = cls.from_string(model_text(node)), cls.from_string(model_text(changed))
        unequal(ctx, a, b, f"[{way}] {what}", model=node, changed=changed)
    if rng.random() < 0.01:
        ctx.sample(what)
