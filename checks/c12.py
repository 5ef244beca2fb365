"""C12: searching finds every matching object exactly once."""

from vk.build import obs_dt
from vk.common import *

RULE = ("random documents (built, parsed, with shared and edited parts) are searched by random types, tuples of types, base classes and attribute values taken from objects in the tree or from elsewhere; the sequence of results is "
        "compared by object identity with an own traversal that follows the vocabulary table; style lookups use urls of many forms; non-trivial: distinct criteria with at least one match")
NEED = {"searches": 5000, "matches": 10000, "empty": 300, "by-type": 1000, "by-value": 1000, "by-both": 500, "shared": 100, "lookalikes": 300, "empty-parts": 500, "style-lookups": 2000, "styles-found": 300, "styles-none": 500, "after-edit": 300, "order-pairs": 5000}
ASSUMPTIONS = ["criteria are documented attributes; results are looked at as far as they are KML objects or time values, not Python values inside them"]


def cases(tier, seed):
    yield from random_cases(10000 if tier == "quick" else 80000, "find")
    yield from random_cases(12000 if tier == "quick" else 60000, "style")


def occurrences(obj, path=()):
    """(path, object) of everything the tree holds, by the vocabulary table."""
    from fastkml.times import KmlDateTime

    out = [(path, obj)]
    name = TABLE.get(type(obj))
    if name is None:
        return out
    for fld in SPECS[name].fields:
        v = getattr(obj, fld.attr)
        if v is None:
            continue
        if fld.kind == "child":
            out += occurrences(v, (*path, (fld.attr, 0)))
        elif fld.kind == "children":
            for i, x in enumerate(v):
                out += occurrences(x, (*path, (fld.attr, i)))
        elif fld.kind == "track":
            for i, x in enumerate(v):
                p = (*path, (fld.attr, i))
                out.append((p, x))
                if isinstance(x.when, KmlDateTime):
                    out.append(((*p, ("when", 0)), x.when))
        elif fld.kind.removeprefix("A_") == "dt":
            out.append(((*path, (fld.attr, 0)), v))
    return out


TABLE = {}


def setup(ctx):
    for name, s in SPECS.items():
        TABLE[s.pycls] = name


def before(p, q):
    """True if an object at p must come before one at q, None if unspecified."""
    for a, b in zip(p, q):
        if a == b:
            continue
        if a[0] != b[0]:
            return None
        return a[1] < b[1]
    return len(p) < len(q)


def matches(obj, crit):
    name = TABLE.get(type(obj))
    for k, v in crit.items():
        if name and k in SPECS[name].by_attr or hasattr(obj, k):
            if not (getattr(obj, k) == v):
                return False
        else:
            return False
    return True


def interesting(o):
    from fastkml.gx import TrackItem
    from fastkml.times import KmlDateTime

    return type(o) in TABLE or isinstance(o, (KmlDateTime, TrackItem))


def search(ctx, rng, root, where):
    import fastkml
    from fastkml import utils
    from fastkml.base import _XMLObject
    from fastkml.features import _Feature
    from fastkml.geometry import _Geometry
    from fastkml.gx import TrackItem
    from fastkml.styles import StyleMap, Style
    from fastkml.times import KmlDateTime

    occ = occurrences(root)
    objs = [o for _, o in occ]
    of_type, crit = None, {}
    how = rng.choice(("type", "value", "both"))
    if how in ("type", "both"):
        c = rng.random()
        if c < 0.5:
            of_type = type(rng.choice(objs))
        elif c < 0.6:
            of_type = SPECS[rng.choice(ALL)].pycls
        elif c < 0.75:
            of_type = rng.choice((_XMLObject, _Feature, _Geometry, KmlDateTime, TrackItem))
        else:
            of_type = tuple({type(rng.choice(objs)) for _ in range(2)} | {SPECS[rng.choice(ALL)].pycls})
    if how in ("value", "both"):
        cand = [o for o in objs if type(o) in TABLE and (of_type is None or isinstance(o, of_type))] or [o for o in objs if type(o) in TABLE]
        o = rng.choice(cand)
        flds = [f for f in SPECS[TABLE[type(o)]].fields if f.kind != "track"]
        for f in rng.sample(flds, min(len(flds), rng.choice((1, 1, 2, 3)))):
            crit[f.attr] = getattr(o, f.attr)
        if rng.random() < 0.15 and crit:
            crit[rng.choice(sorted(crit))] = "no such value"
        if rng.random() < 0.15 and crit:  # a value of another type that looks alike
            k = rng.choice(sorted(crit))
            v = crit[k]
            crit[k] = rng.choice((str(v), repr(v), [v], (v,), {"v": v}, int(v) if isinstance(v, (bool, float)) and abs(v) < 1e15 else str(v).upper(), str(v).strip() + " "))
            ctx.hit("lookalikes")
        if rng.random() < 0.05:
            crit["no_such_attribute"] = 1
    want = [(p, o) for p, o in occ if (of_type is None or isinstance(o, of_type)) and interesting(o) and matches(o, crit)]
    raw = list(utils.find_all(root, of_type=of_type, **crit))
    got = [o for o in raw if interesting(o)]
    first = utils.find(root, of_type=of_type, **crit)
    ctx.hit("searches")
    ctx.hit("by-" + how)
    ctx.hit("matches", len(want))
    ctx.ok((where, how, str(of_type), sorted((k, repr(v)[:80]) for k, v in crit.items()), len(want)) if want else None)
    if not want:
        ctx.hit("empty")
    label = f"{where}: of_type={of_type} {crit!r}"[:400]
    if sorted(map(id, got)) != sorted(id(o) for _, o in want):
        ctx.fail("wrong-results", f"{label}: {len(got)} results instead of {len(want)}; missing {[type(o).__name__ for _, o in want if id(o) not in set(map(id, got))][:5]}")
        return
    if first is not (raw[0] if raw else None):
        ctx.fail("find-differs", f"{label}: find is not the first of find_all")
    ctx.ok()
    # order
    paths = {}
    for p, o in want:
        paths.setdefault(id(o), []).append(p)
    ps = [paths[id(o)][0] for o in got if len(paths[id(o)]) == 1][:40]
    for i in range(len(ps)):
        for j in range(i + 1, len(ps)):
            b = before(ps[i], ps[j])
            if b is not None:
                ctx.hit("order-pairs")
                if not b:
                    ctx.fail("order", f"{label}: {ps[j]} after {ps[i]}")
                    return


def find_case(ctx, rng):
    node = tree(rng)
    with backend(rng.choice(("lxml", "stdlib"))):
        if rng.random() < 0.5:
            obj, where = build(node), "built"
        else:
            obj, where = SPECS[node.cls].pycls.from_string(build(node).to_string()), "parsed"
    if rng.random() < 0.3:  # the same object in several places
        feats = [o for _, o in occurrences(obj) if hasattr(o, "styles") and isinstance(o.styles, list) and TABLE[type(o)] != "Style"]
        if feats:
            st = build(g.Gen(rng).node("Style"))
            for f in feats[:3]:
                f.styles += [st] * rng.choice((1, 2))
            ctx.hit("shared")
    if rng.random() < 0.3:  # parts without any content are parts as well
        for _, o in occurrences(obj):
            for fld in SPECS[TABLE[type(o)]].fields if type(o) in TABLE else ():
                if fld.kind in ("child", "children") and not getattr(o, fld.attr) and rng.random() < 0.2:
                    c = rng.choice(fld.classes)
                    if c in ("Coordinates", "Schema") or "features" in SPECS[c].by_attr:
                        continue
                    e = build(Node(c))
                    setattr(o, fld.attr, e if fld.kind == "child" else [e])
                    ctx.hit("empty-parts")
    for _ in range(4):
        search(ctx, rng, obj, where)
    # edits between searches
    conts = [o for _, o in occurrences(obj) if hasattr(o, "features")]
    if conts:
        c = rng.choice(conts)
        if c.features and rng.random() < 0.5:
            c.features.pop(rng.randrange(len(c.features)))
        else:
            c.append(build(g.Gen(rng, max_depth=1).node("Placemark")))
        o = rng.choice([o for _, o in occurrences(obj) if hasattr(o, "id")] or [None])
        if o is not None:
            o.id = "edited"
        ctx.hit("after-edit")
        for _ in range(3):
            search(ctx, rng, obj, where + " edited")
    if rng.random() < 0.01:
        ctx.sample(str(node)[:500])


def styles_of(feature):
    """Styles a feature holds itself: (top level?, object)."""
    out = []
    for s in feature.styles:
        out.append((True, s))
        if TABLE[type(s)] == "StyleMap":
            for p in s.pairs:
                if TABLE.get(type(p.style)) == "Style":
                    out.append((False, p.style))
    return out


def features_of(doc):
    yield doc
    for f in getattr(doc, "features", ()):
        yield from features_of(f)


def style_case(ctx, rng):
    ids = ["s1", "s2", "S1", "s", "x-1.y", "ünïcode", "with space", "1", "a&b", "None", "s1/x", "q?r", "a=b"]
    gen = g.Gen(rng, fill=0.25, max_depth=3)
    gen.text = lambda role="", attr=False, _t=gen.text: rng.choice(ids) if role == "id" else _t(role, attr)
    node = gen.node("Document")
    for m in node.walk():
        if m.cls in ("Document", "Folder", "Placemark") and rng.random() < 0.7:
            st = []
            for _ in range(rng.choice((1, 2, 4))):
                s = gen.node(rng.choice(("Style", "StyleMap")))
                if rng.random() < 0.8:
                    s.put("id", rng.choice(ids))
                st.append(s)
            m.put("styles", st)
    doc = build(node)
    if rng.random() < 0.4:
        doc = type(doc).from_string(doc.to_string())
    for k in range(6):
        frag = rng.choice(ids[:6] + ids + ["absent", "", "s1#s2"])
        url = rng.choice(("#{}", "#{}", "http://ex.org/a.kml#{}", "file.kml#{}", "../d/doc.kmz/doc.kml#{}", "http://ex.org/?q=1&r=2#{}", "{}", "http://ex.org/{}", "#")).format(frag)
        got = doc.get_style_by_url(url)
        ctx.hit("style-lookups")
        _, hash_, want_id = url.partition("#")
        ok = [None]
        if hash_ and want_id:
            for f in features_of(doc):
                here = [(top, s) for top, s in styles_of(f) if s.id == want_id]
                if here:
                    ok = [here[0][1]] + [s for top, s in here if top][:1]
                    break
        ctx.hit("styles-none" if ok == [None] else "styles-found")
        ctx.ok((url, len(ok)) if ok != [None] else None)
        if not any(got is s for s in ok):
            ctx.fail("style-lookup", f"get_style_by_url({url!r}) gave {getattr(got, 'id', got)!r} {type(got).__name__} instead of {[getattr(s, 'id', s) for s in ok]}", xml=doc.to_string())
            return
        if rng.random() < 0.3:  # ids change, styles come and go
            f = rng.choice(list(features_of(doc)))
            if f.styles:
                s = rng.choice(f.styles)
                if rng.random() < 0.5:
                    s.id = rng.choice(ids)
                else:
                    f.styles = [x for x in f.styles if x is not s]
                ctx.hit("after-edit")


def run(ctx, case_id, _):
    (find_case if case_id.startswith("find") else style_case)(ctx, ctx.rng)
