"""C16: conforming content is written schema-valid; validation tells the truth."""

import io
from pathlib import Path

from vk.common import *
from vk.conform import conform

RULE = ("random documents and single elements with schema-conforming values are written at all verbosities and precisions and validated against separately kept copies of the OGC KML 2.2 schema files with the Google extensions; "
        "valid documents, documents with one or more injected schema violations and objects with arbitrary values are validated through every entry point in random order and the verdicts compared with the separate schema; non-trivial: distinct document")
NEED = {"valid-written": 1500, "single-elements": 200, "verdicts": 1500, "verdict:valid": 800, "verdict:invalid": 800, "mutated": 1000, "via:element": 200, "via:object": 200, "via:parse": 200, "via:file": 200, "via:default-strict": 100,
        "via:inner": 100, "custom-schema": 100}
ASSUMPTIONS = ["libxml2's schema validator is right", "the copies of the schema files in /verif/data/schema are the KML 2.2 schema (with the extensions the project supports)", "list content is given in an order the schema allows"]
SCHEMA = {}
CUSTOM = """<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="http://www.opengis.net/kml/2.2" elementFormDefault="qualified">
<xs:element name="kml"><xs:complexType><xs:sequence><xs:element name="%s" minOccurs="0"><xs:complexType><xs:sequence><xs:any processContents="skip" minOccurs="0" maxOccurs="unbounded"/></xs:sequence><xs:anyAttribute processContents="skip"/></xs:complexType></xs:element></xs:sequence></xs:complexType></xs:element></xs:schema>"""


def cases(tier, seed):
    yield from (("sweep:" + "/".join(map(str, lab)), n) for lab, n in g.sweep(seed) if lab[0] in ("full", "without", "child", "min"))
    yield from random_cases(12000 if tier == "quick" else 80000, "write")
    yield from random_cases(3600 if tier == "quick" else 25000, "judge")


def setup(ctx):
    from lxml import etree

    data = Path(__file__).resolve().parent.parent / "data" / "schema"
    SCHEMA["own"] = etree.XMLSchema(etree.parse(str(data / "ogckml22.xsd")))
    SCHEMA["etree"] = etree


def verdict(el):
    """(valid, reason) by the separately kept schema."""
    s = SCHEMA["own"]
    ok = s.validate(el)
    return ok, "" if ok else s.error_log[0].message[:300]


def model(rng, cls=None):
    gen = g.Gen(rng, valid=True, fill=rng.choice((0.2, 0.4, 0.6)), max_depth=rng.choice((1, 2, 3)))
    n = gen.kml() if cls is None else gen.node(cls)
    return conform(n, rng)


GLOBAL = [c for c in ALL if c not in ("Coordinates", "KML", "OuterBoundaryIs", "InnerBoundaryIs")]


def write_case(ctx, rng, n):
    from fastkml.enums import Verbosity

    etree = SCHEMA["etree"]
    if n is None:
        n = model(rng, None if rng.random() < 0.7 else rng.choice(("Document", "Folder", "Placemark", "PhotoOverlay", "ScreenOverlay", "GroundOverlay", "NetworkLink", "Style", "Track", "MultiTrack", "MultiGeometry", "Model", "Region")))
    else:
        n = conform(model(rng, n.cls), rng)
        ctx.hit("single-elements")
    verb = rng.choice(("normal", "normal", "terse", "verbose"))
    if verb == "verbose" and any(m.cls == "IconStyle" and m.get("icon") is not None for m in n.walk()):
        verb = "terse"  # see DESIGN: the defaults of a link are not allowed in the icon of an icon style
    ctx.hit("verbosity:" + verb)
    with backend(rng.choice(("lxml", "lxml", "stdlib"))):
        obj = build(n)
        if not sp_truthy(n):
            return
        text = obj.to_string(verbosity=getattr(Verbosity, verb), precision=rng.choice((None, None, 2, 6)), prettyprint=rng.random() < 0.5)
    root = etree.fromstring(text)
    ok, why = verdict(root)
    if "No matching global" in why:
        return
    ctx.ok(text)
    ctx.hit("valid-written")
    if not ok:
        ctx.fail("written-invalid", f"[{verb}] {why}", xml=text)
        return
    # and the library says so too
    with backend("lxml"):
        if verb == "normal" and obj.validate() is not True:
            ctx.fail("valid-rejected", "obj.validate() is not True", xml=text)
        ctx.ok()
    if rng.random() < 0.01:
        ctx.sample(text[:600])


def sp_truthy(n):
    from vk.spec import truthy

    return truthy(n)


KMLNS = "{http://www.opengis.net/kml/2.2}"


def mutate(rng, root):
    """One change that mostly makes a document invalid."""
    els = [e for e in root.iter() if isinstance(e.tag, str)]
    e = rng.choice(els)
    how = rng.choice(("enum", "swap", "unknown", "duplicate", "attr", "text", "delete", "rename", "range", "type", "move"))
    etree = SCHEMA["etree"]
    if how in ("enum", "range", "type"):
        leaves = [x for x in els if len(x) == 0 and x.text and x.text.strip()]
        if leaves:
            x = rng.choice(leaves)
            x.text = {"enum": "bogus", "range": "1000000", "type": "not a number"}[how]
    elif how == "swap" and len(e) > 1:
        i = rng.randrange(len(e) - 1)
        e.insert(i, e[i + 1])
    elif how == "unknown":
        e.insert(rng.randrange(len(e) + 1), etree.Element(KMLNS + rng.choice(("unknown", "Placemark", "name", "Lod", "coordinates"))))
    elif how == "duplicate" and len(e):
        import copy

        i = rng.randrange(len(e))
        e.insert(i, copy.deepcopy(e[i]))
    elif how == "attr":
        e.set(rng.choice(("bogus", "id", "targetId", "name", "x")), rng.choice(("1", "a b", "i0", "")))
    elif how == "text":
        e.text = "stray text"
    elif how == "delete" and len(e):
        e.remove(e[rng.randrange(len(e))])
    elif how == "rename":
        e.tag = rng.choice((KMLNS + "bogus", "{http://ex.org/}" + e.tag.rpartition("}")[2], e.tag.rpartition("}")[2], KMLNS + e.tag.rpartition("}")[2].swapcase()))
    elif how == "move" and len(e) > 1:
        e.append(e[0])
    return how


def said(ctx, what, thunk, expect_ok, why, text):
    """Hold one verdict of the library against the separate schema."""
    ctx.hit("verdicts")
    ctx.hit("via:" + what)
    ctx.hit("verdict:valid" if expect_ok else "verdict:invalid")
    ctx.ok((what, text))
    try:
        r = thunk()
    except AssertionError:
        if expect_ok:
            ctx.fail("valid-rejected", f"{what}: rejected a valid document", xml=text)
            return False
        return True
    except Exception as e:
        ctx.fail("other-exception", f"{what}: {type(e).__name__}: {e} ({why})", xml=text)
        return False
    if not expect_ok:
        ctx.fail("invalid-accepted", f"{what}: accepted an invalid document: {why}", xml=text)
        return False
    return r


def judge_case(ctx, rng):
    from fastkml import KML
    from fastkml.validator import validate

    etree = SCHEMA["etree"]
    path = ctx.scratch / "v.kml"
    with backend("lxml"):
        for step in range(6):
            kind = rng.choice(("valid", "mutated", "mutated", "object", "custom"))
            if kind == "object":  # arbitrary values
                n = tree(rng)
                if rng.random() < 0.5:
                    n = conform(n, rng)
                obj = build(n)
                text = obj.to_string()
                ok, why = verdict(etree.fromstring(text))
                r = said(ctx, "object", obj.validate, ok, why, text)
                if ok and r is not True and r is not False:
                    ctx.fail("verdict-not-true", f"obj.validate() returned {r!r}")
                continue
            n = model(rng)
            text = build(n).to_string()
            root = etree.fromstring(text)
            if kind == "custom":
                ctx.hit("custom-schema")
                xsd = ctx.scratch / "own.xsd"
                feats = n.get("features", [])
                name = SPECS[feats[0].cls].tag if feats and rng.random() < 0.6 else "Nothing"
                xsd = ctx.scratch / f"own-{name}.xsd"
                if not xsd.exists():
                    xsd.write_text(CUSTOM % name)
                own = etree.XMLSchema(etree.parse(str(xsd)))
                ok = own.validate(root)
                said(ctx, "custom", lambda: validate(schema=xsd, element=root), ok, "custom schema", text)
                continue
            if kind == "mutated":
                for _ in range(rng.choice((1, 1, 2))):
                    how = mutate(rng, root)
                ctx.hit("mutated")
                ctx.hit("mutation:" + how)
                text = etree.tostring(root, encoding="unicode")
                root = etree.fromstring(text)
            ok, why = verdict(root)
            via = rng.choice(("element", "parse", "file", "default-strict", "inner", "tree", "lenient"))
            if via == "element":
                r = said(ctx, via, lambda: validate(element=root), ok, why, text)
                if ok and r is not True and r is not False:
                    ctx.fail("verdict-not-true", f"validate() returned {r!r}")
            elif via == "tree":
                said(ctx, via, lambda: validate(element=etree.ElementTree(root)), ok, why, text)
            elif via == "file":
                path.write_bytes(text.encode())
                said(ctx, via, lambda: validate(file_to_validate=path), ok, why, text)
            elif via == "inner":
                # a part of a document is judged by itself
                part = rng.choice([e for e in root.iter() if isinstance(e.tag, str)])
                alone = etree.fromstring(etree.tostring(part, with_tail=False))
                ok, why = verdict(part)
                if verdict(alone)[0] == ok:
                    said(ctx, via, lambda: validate(element=part), ok, why, text)
            elif via in ("parse", "default-strict"):
                # values the schema allows but the reader does not are another matter
                kw = {"validate": True, "strict": False} if via == "parse" else {}
                def read():
                    from fastkml.exceptions import KMLParseError
                    try:
                        return KML.parse(io.BytesIO(text.encode()), **kw)
                    except KMLParseError:
                        return True
                said(ctx, via, read, ok, why, text)
            else:
                obj = KML.parse(io.BytesIO(text.encode()), strict=False, validate=rng.choice((None, False)))
                ctx.ok()
                ctx.hit("via:lenient")


def run(ctx, case_id, payload):
    kind = case_id.partition(":")[0]
    if kind == "judge":
        judge_case(ctx, ctx.rng)
    else:
        write_case(ctx, ctx.rng, payload)
