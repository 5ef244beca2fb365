"""C17: edits show in the next output, and only the edits."""

import copy

from vk.build import kwargs_of, mk_items, scalar
from vk.common import *
from vk.gen import is_scalar
from vk.xmltext import model_text

RULE = ("random histories of 5 to 30 edits (assigning and clearing values, children and lists, append/insert/remove/reverse on lists and through the append methods, editing positions and track items in place, rejected edits) on built and parsed trees, interleaved with "
        "writes, reads, comparisons, searches, repr and geometry access; after each step the object's output, equality, attributes, geometry and search results are held against the model edited alike; non-trivial: distinct (history, document)")
NEED = {"edits": 10000, "edit:scalar": 1500, "edit:clear": 800, "edit:child": 400, "edit:list": 1500, "edit:append": 300, "edit:coords": 300, "edit:track": 15, "edit:rejected": 100, "start:built": 200, "start:parsed": 200, "outputs": 5000, "equal-fresh": 2000,
        "interleaved": 3000, "geometry-checks": 200, "search-checks": 300, "style-lookups": 500}
ASSUMPTIONS = ["clearing a value assigns what a freshly constructed object holds"]


def cases(tier, seed):
    yield from (("field:%s.%s" % (c, f.attr), (c, f.attr)) for c in ALL for f in SPECS[c].fields)
    yield from random_cases(9000 if tier == "quick" else 60000, "history")


def pairs(obj, node):
    """(object, model) of all parts."""
    out = [(obj, node)]
    for k, v in node.f.items():
        if isinstance(v, Node):
            out += pairs(getattr(obj, k), v)
        elif isinstance(v, list) and v and isinstance(v[0], Node):
            for o, m in zip(getattr(obj, k), v):
                out += pairs(o, m)
    return out


def default_of(cls, attr):
    py = SPECS[cls].pycls
    return copy.copy(getattr(py(id="x") if cls == "Schema" and attr != "id" else py(**({"id": "x"} if cls == "Schema" else {})), attr))


def twin_of(node):
    """An equal node (without the incomplete parts a constructor leaves out)."""
    return observe(build(node))


def edit(ctx, rng, o, n, fld=None):
    """One edit, on the object and on the model. Returns its description."""
    gen = g.Gen(rng, fill=0.3, max_depth=2)
    fld = fld or rng.choice(SPECS[n.cls].fields)
    attr, v = fld.attr, n.get(fld.attr)
    if is_scalar(fld):
        if v is not None and rng.random() < 0.35 and not (n.cls == "Schema" and attr == "id"):
            setattr(o, attr, default_of(n.cls, attr))
            n.put(attr, None)
            ctx.hit("edit:clear")
            return f"{n.cls}.{attr} cleared"
        w = gen.scalar(fld)
        setattr(o, attr, scalar(fld, w))
        n.f[attr] = w
        ctx.hit("edit:scalar")
        return f"{n.cls}.{attr} = {w!r}"[:120]
    if fld.kind == "child":
        if v is not None and rng.random() < 0.4:
            setattr(o, attr, None)
            n.put(attr, None)
            ctx.hit("edit:clear")
            return f"{n.cls}.{attr} cleared"
        w = gen.value(n.cls, fld, 1)
        if w is None:
            return None
        setattr(o, attr, build(w))
        n.f[attr] = w
        ctx.hit("edit:child")
        return f"{n.cls}.{attr} = {w.cls}"
    if fld.kind == "coords":
        ctx.hit("edit:coords")
        pts = list(v or [])
        how = rng.choice(("assign", "item", "append", "insert", "pop"))
        dim = len(pts[0]) if pts else 2
        real = o.coords
        if how == "assign" or not isinstance(real, list) or len(pts) < 2:
            pts = gen.coords("LineString")
            pts = [p[:dim] if len(p) >= dim else (*p, 0.0) for p in pts]
            o.coords = list(pts)
        elif how == "item":
            i = rng.randrange(len(pts))
            pts[i] = real[i] = gen.coord(dim)
        elif how == "append":
            p = gen.coord(dim)
            pts.append(p)
            real.append(p)
        elif how == "insert":
            i, p = rng.randrange(len(pts)), gen.coord(dim)
            pts.insert(i, p)
            real.insert(i, p)
        else:
            i = rng.randrange(len(pts))
            pts.pop(i)
            real.pop(i)
        n.f[attr] = pts
        return f"{n.cls}.{attr} {how}"
    if fld.kind == "track":
        ctx.hit("edit:track")
        items = list(v or [])
        real = o.track_items
        how = rng.choice(("assign", "append", "pop", "reverse"))
        new = gen.track_items()
        if items:  # one dimension per track
            dim = len(items[0][1])
            new = [(w, (*c, 0.0)[:dim], a) for w, c, a in new]
        if how == "assign" or not isinstance(real, list) or not items:
            items = new
            o.track_items = mk_items(new)
        elif how == "append":
            items += new[:1]
            real += mk_items(new[:1])
        elif how == "pop":
            i = rng.randrange(len(items))
            items.pop(i)
            real.pop(i)
        else:
            items.reverse()
            real.reverse()
        n.put(attr, items)
        return f"{n.cls}.{attr} {how}"
    # list of children
    kids = list(v or [])
    real = getattr(o, attr)
    how = rng.choice(("append", "insert", "pop", "reverse", "assign", "clear", "replace", "extend", "slice"))
    fresh = [twin_of(rng.choice(kids)) if kids and rng.random() < 0.2 else gen.node(rng.choice(fld.classes), 2) for _ in range(2)]
    if how == "append" or (not kids and how in ("pop", "replace", "reverse", "slice")):
        x = build(fresh[0])
        if hasattr(o, "append") and attr in ("features", "fields"):
            o.append(x)
            ctx.hit("edit:append")
        elif hasattr(o, "append_data") and attr == "data":
            o.append_data(x)
            ctx.hit("edit:append")
        else:
            real.append(x)
        kids.append(fresh[0])
    elif how == "insert":
        i = rng.randrange(len(kids) + 1)
        kids.insert(i, fresh[0])
        real.insert(i, build(fresh[0]))
    elif how == "extend":
        kids += fresh
        real.extend(build(x) for x in fresh)
    elif how == "pop":
        i = rng.randrange(len(kids))
        kids.pop(i)
        real.remove(real[i]) if rng.random() < 0.2 and all(real[i] != x for x in real[:i]) else real.pop(i)
    elif how == "replace":
        i = rng.randrange(len(kids))
        kids[i] = fresh[0]
        real[i] = build(fresh[0])
    elif how == "reverse":
        kids.reverse()
        real.reverse()
    elif how == "slice":
        k = rng.randrange(len(kids))
        kids[k:] = fresh
        real[k:] = [build(x) for x in fresh]
    elif how == "clear":
        kids = []
        if rng.random() < 0.5:
            real.clear()
        else:
            setattr(o, attr, [])
    else:
        kids = fresh
        setattr(o, attr, [build(x) for x in fresh])
    n.put(attr, kids)
    ctx.hit("edit:list")
    return f"{n.cls}.{attr} {how}"


def rejected(ctx, rng, obj, node):
    """Edits the library refuses; nothing changes."""
    import fastkml
    from fastkml.gx import Track

    cands = [(o, m) for o, m in pairs(obj, node) if m.cls in ("Folder", "Document")]
    if not cands:
        return None
    o, _ = rng.choice(cands)
    try:
        o.append(o)
    except ValueError:
        ctx.hit("edit:rejected")
    else:
        ctx.fail("self-append", "appending a container to itself was accepted")
        o.features.remove(o)
    return "append(self)"


def lookups(node):
    """Style ids worth looking up in the documents of the model."""
    ids = [m.get("id") for m in node.walk() if m.cls in ("Style", "StyleMap") and m.get("id")]
    return list(dict.fromkeys(ids))[:6] + ["nowhere"]


def style_of(doc, sid):
    return doc.get_style_by_url("#" + sid)


def interleave(ctx, rng, obj, node, text):
    from fastkml import utils
    from fastkml.base import _XMLObject
    from fastkml.enums import Verbosity

    ctx.hit("interleaved")
    for o, m in pairs(obj, node):
        if m.cls == "Document":
            for sid in lookups(node):
                style_of(o, sid)
    k = rng.randrange(9)
    if k == 0:
        obj.to_string(verbosity=rng.choice(list(Verbosity)), precision=rng.choice((None, 1, 4)))
    elif k == 1:
        repr(obj)
    elif k == 2:
        obj == type(obj).from_string(text) if text else None  # noqa: B015
    elif k == 3:
        list(utils.find_all(obj, of_type=_XMLObject))
    elif k == 4:
        obj.etree_element()
    elif k == 5:
        try:
            obj.validate()
        except AssertionError:
            pass
    elif k == 6:
        utils.find(obj, id="x")
    elif k == 7:
        getattr(obj, "geometry", None)
        getattr(obj, "time_stamp", None)
        bool(obj)
    else:
        str(obj)


def compare_state(ctx, rng, obj, node, history, full=True):
    from fastkml import utils

    where = f"after {len(history)} steps, last: {history[-1] if history else 'start'}"
    ctx.hit("outputs")
    got = canon(observe(obj))
    want = canon(node)
    ctx.ok(n=2)
    if got != want:
        ctx.fail("state-differs", f"{where}: {diff(want, got)}", history=history)
        return False
    text = obj.to_string(prettyprint=False)
    bad = compare(expect(node), parse(text))
    if bad:
        ctx.fail("output-differs", f"{where}: {'; '.join(bad[:3])}", history=history, output=text)
        return False
    if not full:
        return True
    fresh = build(node)
    if canon(observe(fresh)) != want:
        return True  # a constructor leaves incomplete parts out
    ft = fresh.to_string(prettyprint=False)
    ctx.ok(n=3)
    if ft != text:
        ctx.fail("fresh-output-differs", f"{where}: a tree built in this state is written differently: {info_diff(info_text(ft), info_text(text))}", history=history)
        return False
    ctx.hit("equal-fresh")
    if not (obj == fresh and fresh == obj):
        ctx.fail("fresh-unequal", f"{where}: a tree built in this state is not equal", history=history, model=node)
        return False
    if repr(obj) != repr(fresh):
        ctx.fail("fresh-repr-differs", f"{where}: repr differs", history=history)
    for (o, m), (f, _) in zip(pairs(obj, node), pairs(fresh, node)):
        if m.cls in ("Placemark", "Point", "LineString", "LinearRing", "Polygon", "MultiGeometry", "Track", "MultiTrack"):
            ctx.hit("geometry-checks")
            ctx.ok()
            if repr(o.geometry) != repr(f.geometry):
                ctx.fail("geometry-stale", f"{where}: geometry of {m.cls} is {o.geometry!r} instead of {f.geometry!r}"[:600], history=history)
                return False
        if "times" in SPECS[m.cls].by_attr:
            ctx.ok()
            if (o.time_stamp, o.begin, o.end) != (f.time_stamp, f.begin, f.end):
                ctx.fail("time-stale", f"{where}: times of {m.cls}", history=history)
    both = list(zip(pairs(obj, node), pairs(fresh, node)))
    for (o, m), (f, _) in both:
        if m.cls != "Document":
            continue
        for sid in lookups(node):
            ctx.hit("style-lookups")
            ctx.ok()
            x, y = style_of(o, sid), style_of(f, sid)
            px = next((i for i, ((a, _), _) in enumerate(both) if a is x), None)
            py = next((i for i, (_, (a, _)) in enumerate(both) if a is y), None)
            if px != py or (x is None) != (y is None):
                ctx.fail("style-stale", f"{where}: the style '#{sid}' is {x!r} instead of {y!r}"[:600], history=history)
                return False
    cls = SPECS[rng.choice(list(node.walk())).cls].pycls
    ctx.hit("search-checks")
    if len(list(utils.find_all(obj, of_type=cls))) != len(list(utils.find_all(fresh, of_type=cls))):
        ctx.fail("search-stale", f"{where}: search for {cls.__name__}", history=history)
        return False
    return True


def run(ctx, case_id, payload):
    rng = ctx.rng
    history = []
    with backend(rng.choice(("lxml", "stdlib"))):
        if payload is not None:
            # every property of every class: set, change, clear, set again
            cls, attr = payload
            gen = g.Gen(rng, fill=0.5, max_depth=2)
            node = gen.node(cls)
            obj = build(node)
            fld = SPECS[cls].by_attr[attr]
            if not compare_state(ctx, rng, obj, node, history):
                return
            for _ in range(6):
                step = edit(ctx, rng, obj, node, fld)
                if step is None:
                    continue
                history.append(step)
                ctx.hit("edits")
                if not compare_state(ctx, rng, obj, node, history):
                    return
            ctx.distinct((cls, attr, history))
            return
        node = tree(rng)
        if rng.random() < 0.5:
            obj = build(node)
            ctx.hit("start:built")
        else:
            obj = SPECS[node.cls].pycls.from_string(model_text(node))
            node = observe(obj)
            ctx.hit("start:parsed")
        node = node.copy()
        if canon(observe(obj)) != canon(node):
            node = observe(obj)
        text = None
        for _ in range(rng.choice((5, 10, 20, 30))):
            roll = rng.random()
            if roll < 0.05:
                step = rejected(ctx, rng, obj, node)
            else:
                ps = pairs(obj, node)
                o, m = rng.choice(ps)
                fld = None
                if rng.random() < 0.2:
                    # shared styles: add, remove, rename, replace
                    cands = [(a, b, SPECS[b.cls].by_attr["id" if b.cls in ("Style", "StyleMap") else "styles"]) for a, b in ps if b.cls in ("Style", "StyleMap", "Document")]
                    if cands:
                        o, m, fld = rng.choice(cands)
                step = edit(ctx, rng, o, m, fld)
            if step is None:
                continue
            history.append(step)
            ctx.hit("edits")
            if rng.random() < 0.4:
                interleave(ctx, rng, obj, node, text)
            if rng.random() < 0.5 and not compare_state(ctx, rng, obj, node, history, rng.random() < 0.5):
                return
            if size(node) > 250:
                break
        if not compare_state(ctx, rng, obj, node, history):
            return
        ctx.distinct((node.cls, history))
    if rng.random() < 0.02:
        ctx.sample(history[:12])
