"""C02: reading recovers every value, however the XML is spelled."""

import io

from vk.common import *
from vk.xmltext import Lex, to_text

RULE = ("models (every class with every property and edge value, and random documents) are spelled as XML by an independent writer in random lexical "
        "variants (prefix bindings, quoting, CDATA, character references, comments, white space, element order, number/boolean/date/coordinate forms, empty elements, internal entities, "
        "encodings, text whose declaration names another encoding), read by both XML libraries, and the public attributes of the result are compared with the model; non-trivial: the text carries at least one value")
NEED = {"reads": 1000, "declared-text": 200, "feature:cdata": 100, "feature:shuffle": 100, "feature:odd": 50, "parse-bytes": 50, "backend:stdlib": 400, "blanks": 1000, "entities": 100}
ASSUMPTIONS = ["children of different kinds under one parent are returned grouped by kind (existing behaviour, pinned by tests)",
               "a track item without angles reads as zero angles (existing behaviour, pinned by tests)"]
ENC = ("utf-8", "utf-8", "utf-8-sig", "utf-16", "us-ascii", "iso-8859-1")
NAMED = ("UTF-8", "utf-16", "UTF-16LE", "us-ascii", "ISO-8859-1", "ISO-8859-15", "windows-1252", "Shift_JIS", "UTF-32", "cp1251")


def cases(tier, seed):
    yield from sweep_cases(seed)
    yield from random_cases(20000 if tier == "quick" else 150000)


def entity(ctx, rng, text, node):
    """Replace a text by a reference to an entity the document declares."""
    vals = sorted({v for m in node.walk() for v in m.f.values() if isinstance(v, str) and all(c.isalnum() or c == " " for c in v) and len(v) > 1 and f">{v}<" in text})
    if not vals or "<?xml" in text:
        return text
    v = rng.choice(vals)
    k = rng.randrange(len(v))
    name = rng.choice(("e", "vk.entity", "nbsp"))
    text = text.replace(f">{v}<", f">{v[:k]}&{name};<")
    ctx.hit("entities")
    return f'<!DOCTYPE {rng.choice(("kml", "x"))} [<!ENTITY {name} "{v[k:]}">]>\n' + text


def run(ctx, case_id, node):
    rng = ctx.rng
    if node is None:
        node = tree(rng, big=True)
    exp = expect(node) if case_id.startswith("sweep") or rng.random() < 0.7 else blanks(ctx, rng, node)
    want = canon(node, group=True, angles=True, drop_falsy=True)
    lexes = [Lex.random(rng)]
    if case_id.startswith("sweep"):
        lexes.insert(0, Lex.plain())
    for i, lx in enumerate(lexes):
        text = to_text(exp, lx)
        be = rng.choice(("lxml", "stdlib"))
        for f in lx.features():
            ctx.hit("feature:" + f)
        with backend(be):
            ctx.hit("backend:" + be)
            if node.cls == "KML" and rng.random() < 0.5:
                enc = rng.choice(ENC)
                decl = f'<?xml version="1.0" encoding="{enc.removesuffix("-sig")}"?>'
                data = to_text(exp, lx, decl=decl).encode(enc, "xmlcharrefreplace" if not lx.cdata else "strict") \
                    if enc in ("us-ascii", "iso-8859-1") and not lx.cdata else None
                if data is None:
                    if enc in ("us-ascii", "iso-8859-1"):
                        enc = "utf-8"
                        decl = '<?xml version="1.0" encoding="utf-8"?>'
                    data = to_text(exp, lx, decl=decl).encode(enc)
                strict = rng.random() < 0.5
                obj = SPECS["KML"].pycls.parse(io.BytesIO(data), strict=strict, validate=False)
                ctx.hit("parse-bytes")
                text = data.decode(enc)
            else:
                if rng.random() < 0.1:
                    text = entity(ctx, rng, text, node)
                elif rng.random() < 0.3 and not text.startswith("<?xml"):
                    # text is decoded already, whatever encoding its declaration names
                    text = f'<?xml version="1.0" encoding="{rng.choice(NAMED)}"?>' + rng.choice(("", "\n")) + text
                    ctx.hit("declared-text")
                obj = SPECS[node.cls].pycls.from_string(text, strict=rng.random() < 0.5)
        ctx.hit("reads")
        got = canon(observe(obj, parsed=True), group=True, angles=True)
        ctx.ok(text if want[1] else None)
        if got != want:
            ctx.fail("value-differs", f"[{be}] {diff(want, got)}", xml=text, features=lx.features())
        elif rng.random() < 0.01:
            ctx.sample(text)
