"""C26: damaged documents are reported or read up to the damage, never misread."""

import io
import xml.parsers.expat as expat

from vk.common import *
from vk.spec import KMLURI
from vk.xmltext import Lex, model_text

RULE = ("documents of several features are damaged behind the root start tag (cut off, characters or tags removed, inserted, changed, swapped; undeclared prefixes and entities; bytes that are no UTF-8; several damages at once) "
        "or are no XML at all, and are read by from_string and KML.parse with both XML libraries in both modes; expat decides independently whether the text is well-formed: if it is not, from_string and parsing with ElementTree must raise a "
        "syntax error, and parsing with lxml must in lenient mode return a document whose features that were complete before the first damage equal the model; only syntax errors and the library's own errors may appear; non-trivial: distinct damaged text")
NEED = {"damaged": 2000, "not-well-formed": 1500, "syntax-errors": 2000, "recovered": 1000, "kept-features": 1000, "undeclared-prefix": 200, "no-xml": 50, "damage:cut": 200, "damage:end-tag": 200}
ASSUMPTIONS = ["well-formedness is judged by expat with namespaces", "what the XML library makes of the part behind the damage is not judged"]

GARBAGE = [b"", b" ", b"junk", b"<", b"<>", b"<!-- -->", b'<?xml version="1.0"?>', b"<!DOCTYPE a>", b"\x00", b"\xff\xfe<\x00k", b"&amp;", b"{}", b"PK\x03\x04", b"<?x?>", b"\xef\xbb\xbf", b"]]>", b"</kml>",
           b"plain text, no markup at all", b'{"type": "Point"}', bytes(range(256)), b"<!DOCTYPE kml [<!ENTITY a 'b'>]>", b"\n\n\n", b"GIF89a"]
INSERT = ("<", "&", "&foo;", "<!--", "]]>", "<?x", "</kml>", "</Document>", "\x01", "\ufffe", "<b", "</", "<![CDATA[", "&#0;", "<a b=c/>", "<a b b/>", "<!x>", "<a x='1' x='2'/>")
PREFIX = ("<zz:thing/>", "<zz:thing zz:a='1'>text</zz:thing>", "<zz:Placemark><name>x</name></zz:Placemark>", "<thing zz:a='1'/>", "<xsi:x/>")


def cases(tier, seed):
    for i in range(len(GARBAGE)):
        yield f"garbage:{i}", i
    yield from random_cases(6000 if tier == "quick" else 60000, "damage")
    yield from random_cases(1500 if tier == "quick" else 10000, "prefix")
    yield from random_cases(2500 if tier == "quick" else 20000, "snippet")


def well_formed(data):
    p = expat.ParserCreate(namespace_separator="}")
    try:
        p.Parse(data, True)
    except (expat.ExpatError, ValueError, LookupError):
        return False
    return True


def damage(rng, text, start):
    """A damaged text and the place of the (first) damage."""
    kind = rng.choice(("cut", "cut", "delete", "insert", "change", "swap", "end-tag", "start-tag", "bytes"))
    first = len(text)
    data = text
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        i = rng.randrange(start, max(start + 1, len(data)))
        j = min(len(data), i + rng.choice((1, 2, 5, 20)))
        if kind == "cut":
            data = data[:i]
        elif kind == "delete":
            data = data[:i] + data[j:]
        elif kind == "insert":
            data = data[:i] + rng.choice(INSERT) + data[i:]
        elif kind == "change":
            data = data[:i] + rng.choice("<>&\"'/=x \x02]") + data[i + 1:]
        elif kind == "swap":
            data = data[:i] + data[j:j + 5] + data[i:j] + data[j + 5:]
        elif kind == "bytes":
            data = data[:i] + "\udcff" + data[i:]
        else:
            i = data.find("</" if kind == "end-tag" else "<", i)
            if i < 0:
                continue
            e = data.find(">", i) + 1
            data = data[:i] + rng.choice(("", "</x>", data[i:e] * 2)) + data[e:]
        first = min(first, i)
    return kind, data, first


def attempt(ctx, be, what, op, text):
    """The object read, or the kind of error."""
    from fastkml.exceptions import FastKMLError

    try:
        return op()
    except (SyntaxError, FastKMLError) as e:
        return e
    except Exception as e:
        ctx.fail("other-exception", f"[{be}] {what} of a damaged document raised {type(e).__name__}: {e}", xml=repr(text)[:3000])
        return e


def kinds(nodes):
    out = {}
    for n in nodes:
        out.setdefault(n.cls, []).append(canon(n, group=True, angles=True))
    return out


def run(ctx, case_id, payload):
    from fastkml import KML

    rng = ctx.rng
    kind = case_id.partition(":")[0]
    if kind == "garbage":
        return garbage(ctx, GARBAGE[payload])
    gen = g.Gen(rng, fill=rng.choice((0.15, 0.35)), max_depth=2)
    if kind == "snippet":
        node = gen.any_node()
        text = model_text(node, Lex.plain())
        _, bad, _ = damage(rng, text, text.find(">") + 1 if rng.random() < 0.7 else 1)
        return snippet(ctx, SPECS[node.cls].pycls, bad)
    doc = gen.kml(containers=False)
    feats = [f for f in (gen.node(rng.choice(("Placemark", "Placemark", "GroundOverlay", "ScreenOverlay", "NetworkLink", "Folder")), 1) for _ in range(rng.choice((2, 3, 5, 8))))]
    holder = rng.choice(("Document", "Folder"))
    text = f'<kml xmlns="{KMLURI}"><{holder}>'
    start = len(text)
    ends = []
    for f in feats:
        text += model_text(f, Lex.plain())
        ends.append(len(text))
    text += f"</{holder}></kml>"
    if kind == "prefix":
        at = rng.choice([start, *ends])
        bad, first = text[:at] + rng.choice(PREFIX) + text[at:], len(text)
        how = "prefix"
        ctx.hit("undeclared-prefix")
    else:
        how, bad, first = damage(rng, text, start)
        ctx.hit("damage:" + how)
    data = bad.encode("utf-8", "surrogateescape")
    wf = well_formed(data)
    ctx.hit("damaged")
    if not wf:
        ctx.hit("not-well-formed")
    ctx.distinct(data)
    snippet(ctx, KML, bad)
    order = [(be, s) for be in ("lxml", "stdlib") for s in (True, False)]
    rng.shuffle(order)
    for be, strict in order:
        with backend(be):
            got = attempt(ctx, be, f"parse(strict={strict})", lambda: KML.parse(io.BytesIO(data), strict=strict, validate=False), data)
        ctx.ok()
        if isinstance(got, Exception):
            if isinstance(got, SyntaxError):
                ctx.hit("syntax-errors")
            if wf and not strict and "Schema" not in bad:
                ctx.fail("well-formed-rejected", f"[{be}] lenient parsing of a well-formed document raised {got!r}", xml=bad)
            if be == "lxml" and not strict and "Schema" not in bad:
                ctx.fail("not-recovered", f"lenient parsing with lxml raised {type(got).__name__}: {got}", xml=bad)
            continue
        if be == "stdlib":
            if not wf:
                ctx.fail("damage-accepted", "parsing with ElementTree accepted a text that is not well-formed", xml=bad)
            continue
        if not wf:
            ctx.hit("recovered")
        # what was complete before the damage
        want = kinds([f for f, e in zip(feats, ends) if e <= first])
        if want:
            tops = [observe(x, parsed=True) for x in got.features]
            if not tops:
                ctx.fail("features-lost", f"nothing was recovered although {len(want)} features precede the damage ({how})", xml=bad, at=first)
                continue
            have = kinds(tops[0].get("features") or [])
            for cls, nodes in want.items():
                n = len(nodes)
                ctx.hit("kept-features", n)
                if have.get(cls, [])[:n] != nodes:
                    ctx.fail("features-differ", f"{n} {cls} precede the damage ({how}, strict={strict}) and were read differently; {len(have.get(cls, []))} {cls} were read", xml=bad, at=first)
            if how == "prefix" and have != want:
                ctx.fail("prefix-changes", "an element with an undeclared prefix changed what is read", xml=bad)
    if rng.random() < 0.01:
        ctx.sample({"how": how, "xml": bad[:500]})


def snippet(ctx, cls, bad):
    data = bad.encode("utf-8", "surrogateescape")
    wf = well_formed(data)
    given = data if "\udcff" in bad else bad
    for be in ("lxml", "stdlib"):
        strict = ctx.rng.random() < 0.5
        with backend(be):
            got = attempt(ctx, be, f"{cls.__name__}.from_string(strict={strict})", lambda: cls.from_string(given, strict=strict), given)
        ctx.ok()
        if isinstance(got, SyntaxError):
            ctx.hit("syntax-errors")
        if not wf and not isinstance(got, Exception):
            ctx.fail("damage-accepted", f"[{be}] {cls.__name__}.from_string accepted a text that is not well-formed", xml=bad)
        if not wf and isinstance(got, Exception) and not isinstance(got, SyntaxError):
            ctx.fail("damage-as-value", f"[{be}] a text that is not well-formed was reported as {type(got).__name__}: {got}", xml=bad)


def garbage(ctx, data):
    import fastkml
    from fastkml import KML

    for be in ("lxml", "stdlib"):
        for strict in (True, False):
            for validate in (None, True, False):
                ctx.hit("no-xml")
                with backend(be):
                    got = attempt(ctx, be, f"KML.parse(strict={strict}, validate={validate})", lambda: KML.parse(io.BytesIO(data), strict=strict, validate=validate), data)
                ctx.ok(data)
                if not isinstance(got, Exception):
                    ctx.fail("garbage-accepted", f"[{be}] KML.parse accepted {data!r}")
            for cls in (KML, fastkml.Document, fastkml.Placemark, fastkml.geometry.Point):
                with backend(be):
                    got = attempt(ctx, be, f"{cls.__name__}.from_string", lambda: cls.from_string(data, strict=strict), data)
                ctx.ok()
                if not isinstance(got, Exception):
                    ctx.fail("garbage-accepted", f"[{be}] {cls.__name__}.from_string accepted {data!r}")
