"""Case streams and helpers shared by the checks."""

import random

from . import gen as g
from .build import build, build_shared, canon, diff, observe, pairs
from .refxml import compare, expect, info, info_diff, info_text, parse
from .runner import backend
from .spec import ALL, SPECS, Node


def sweep_cases(seed=0, keep=None):
    for label, node in g.sweep(seed):
        if keep is None or keep(label, node):
            yield "sweep:" + "/".join(str(x) for x in label), node


def random_cases(n, tag="random"):
    for i in range(n):
        yield f"{tag}:{i}", None


def tree(rng, **kw):
    """A random model: mostly whole documents, sometimes a single element."""
    gen = g.Gen(rng, fill=rng.choice((0.15, 0.3, 0.5)), max_depth=rng.choice((2, 3, 4)), **kw)
    if rng.random() < 0.5:
        return gen.kml()
    return gen.any_node()


def no_repeats(n: Node):
    """Remove positions repeated in a row (pygeoif geometries do not keep them)."""
    for m in n.walk():
        c = m.get("coords")
        if c:
            m.f["coords"] = [p for i, p in enumerate(c) if i == 0 or p != c[i - 1]]
    return n


def share(rng, n: Node):
    """Let a part occur in several places of the model, as the same node."""
    lists = [(m, k) for m in n.walk() for k, v in m.f.items() if isinstance(v, list) and v and isinstance(v[0], Node)]
    kids = [(m, k) for m in n.walk() for k, v in m.f.items() if isinstance(v, Node)]
    done = False
    for _ in range(rng.choice((1, 2))):
        if lists and rng.random() < 0.7:
            m, k = rng.choice(lists)
            m.f[k].insert(rng.randrange(len(m.f[k]) + 1), rng.choice(m.f[k]))
            done = True
        elif kids:
            m, k = rng.choice(kids)
            other = [(a, b) for a, b in kids if b == k and a is not m and a.cls == m.cls]
            if other:
                a, b = rng.choice(other)
                if not any(x is a for x in m.f[k].walk()) and not any(x is m for x in a.f[b].walk()):
                    a.f[b] = m.f[k]
                    done = True
    return done


def hollow(rng, n: Node):
    """Add parts without the content that makes them count (a link without href)."""
    spots = []
    for m in n.walk():
        for fld in SPECS[m.cls].fields:
            if fld.kind not in ("child", "children") or fld.attr in ("elements", "tracks"):  # those lists drop them at once
                continue
            for c in fld.classes:
                if c != "Schema" and not SPECS[c].truthy(Node(c)) and (fld.kind == "children" or m.get(fld.attr) is None):
                    spots.append((m, fld, c))
    done = False
    for _ in range(rng.choice((1, 2, 4))):
        if not spots:
            break
        m, fld, c = rng.choice(spots)
        if fld.kind == "child":
            if m.get(fld.attr) is None:
                m.put(fld.attr, Node(c))
                done = True
        else:
            items = list(m.get(fld.attr) or [])
            items.insert(rng.randrange(len(items) + 1), Node(c))
            m.put(fld.attr, items)
            done = True
    return done


def blanks(ctx, rng, node, texts=("", "", " ", "\n  ", "\t"), p=0.2):
    """The model with values added whose elements are empty, and their texts: they say nothing."""
    full, raw = node.copy(), {}

    def walk(m):
        if not SPECS[m.cls].truthy(m):
            return
        for fld in SPECS[m.cls].fields:
            v = m.get(fld.attr)
            if fld.kind == "child" and v is not None:
                walk(v)
            elif fld.kind == "children":
                for x in v or ():
                    walk(x)
            elif v is None and fld.kind in ("text", "bool", "int", "float", "enum", "dt") and rng.random() < p:
                todo.append((m, fld))

    todo = []
    walk(full)
    gen = g.Gen(rng)
    for m, fld in todo:
        m.put(fld.attr, gen.scalar(fld))
        raw[(id(m), fld.attr)] = rng.choice(texts)
        ctx.hit("blanks")
    return expect(full, raw=raw)


def size(n: Node):
    return sum(1 for _ in n.walk())


def check_output(ctx, mech, n, text, *, verbosity="normal", precision=None, nskw=None):
    """Hold the text against the reference serialization of the model."""
    el = parse(text)
    bad = compare(expect(n, verbosity=verbosity, nskw=nskw), el, precision=precision)
    if bad:
        ctx.fail(mech, "; ".join(bad[:4]), model=n, output=text)
        return False
    return True


__all__ = ["sweep_cases", "random_cases", "tree", "size", "no_repeats", "check_output", "share", "hollow", "blanks", "build", "build_shared", "pairs", "canon", "diff", "observe", "compare",
           "expect", "info", "info_diff", "info_text", "parse", "backend", "ALL", "SPECS", "Node", "g", "random"]
