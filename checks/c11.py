"""C11: files hold the same document as the string and fail safely."""

import io
import os
import zipfile
from pathlib import Path

from vk.common import *
from vk.xmltext import model_text

ENV = {"LC_ALL": "POSIX", "LANG": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}
RULE = ("random documents with text of many scripts are written to .kml and .kmz files (fresh, over shorter, longer, binary or archive content) in a process with an ASCII locale, the bytes on disk are read by an own "
        "parser and compared with the model and the string form, and the file is parsed back from path, string, binary and text handles, streams and archive members; objects that cannot be serialized are "
        "planted at random places and the bytes and listing of the directory compared before and after; documents in other declared encodings are parsed; non-trivial: distinct file content")
NEED = {"kml-files": 300, "kmz-files": 300, "replaced": 200, "failed-writes": 200, "kept": 150, "src:path": 50, "src:str": 50, "src:rb": 50, "src:text": 50, "src:bytesio": 50, "src:stringio": 50,
        "non-ascii": 200, "encodings": 100, "text-handle": 30, "precision": 100, "locale-ascii": 1}
ASSUMPTIONS = ["the process runs with an ASCII locale and UTF-8 mode off, the most hostile setting for text files", "archives have the lower case suffix .kmz", "a failure is one that to_string() of the same objects reports too"]
NAMES = ("a", "my file", "doc.v1.2", "archive.kmz", "x#y", "a&b", "up-per.KML", "-dash", "a'b", ".hidden", "long" * 20)


def cases(tier, seed):
    yield from random_cases(9600 if tier == "quick" else 60000, "good")
    yield from random_cases(4800 if tier == "quick" else 30000, "fail")
    yield from random_cases(2400 if tier == "quick" else 15000, "enc")


def setup(ctx):
    import locale

    if locale.getpreferredencoding(False).lower() not in ("utf-8", "utf8"):
        ctx.hit("locale-ascii")


def previous(rng, path):
    """Content the file had before, or None."""
    kind = rng.choice((None, "short", "long", "zip", "xml"))
    if kind is None:
        return None
    if kind == "zip":
        with zipfile.ZipFile(path, "w") as z:
            z.writestr("old.txt", "x" * rng.randint(0, 20000))
            z.writestr("doc.kml", "<kml xmlns='http://www.opengis.net/kml/2.2'/>")
    else:
        path.write_bytes({"short": b"x", "long": bytes(range(256)) * rng.randint(100, 2000), "xml": b"<kml><Document><name>old</name></Document></kml>" * 50}[kind])
    return kind


def member(path):
    with zipfile.ZipFile(path) as z:
        names = z.namelist()
        bad = z.testzip()
        return names, bad, z.read("doc.kml") if "doc.kml" in names else b""


def document(rng):
    gen = g.Gen(rng, fill=rng.choice((0.2, 0.4)), max_depth=rng.choice((1, 2, 3)), big=True)
    return gen.kml()


def read_back(ctx, KML, rng, path, kmz, strict):
    kw = {"strict": strict, "validate": False}
    if kmz:
        with zipfile.ZipFile(path) as z:
            with z.open("doc.kml") as f:
                ctx.hit("src:member")
                return KML.parse(f, **kw)
    src = rng.choice(("path", "str", "rb", "text", "bytesio", "stringio"))
    ctx.hit("src:" + src)
    if src == "path":
        return KML.parse(path, **kw)
    if src == "str":
        return KML.parse(str(path), **kw)
    if src == "rb":
        with path.open("rb") as f:
            return KML.parse(f, **kw)
    if src == "text":
        with path.open(encoding="utf-8") as f:
            return KML.parse(f, **kw)
    if src == "bytesio":
        return KML.parse(io.BytesIO(path.read_bytes()), **kw)
    return KML.parse(io.StringIO(path.read_bytes().decode("utf-8")), **kw)


def good(ctx, rng, d):
    from fastkml import KML
    from fastkml.enums import Verbosity

    node = document(rng)
    kmz = rng.random() < 0.5
    path = d / (rng.choice(NAMES) + (".kmz" if kmz else rng.choice((".kml", ".kml", ".xml", ""))))
    if path.suffix == ".kmz" and not kmz:
        path = path.with_suffix(".kml")
    prev = previous(rng, path)
    if prev:
        ctx.hit("replaced")
    precision = rng.choice((None, None, 0, 1, 3, 6))
    verb = rng.choice(("normal", "normal", "terse", "verbose"))
    pretty = rng.random() < 0.5
    be = rng.choice(("lxml", "stdlib"))
    if precision is not None:
        ctx.hit("precision")
    kw = {"prettyprint": pretty, "precision": precision, "verbosity": getattr(Verbosity, verb)}
    with backend(be):
        obj = build(node)
        ret = obj.write(str(path) if rng.random() < 0.5 else path, **kw)
        text = obj.to_string(**kw)
        if prev and rng.random() < 0.2:  # writing again gives the same file
            obj.write(path, **kw)
    ctx.check(ret is None, "write-returns", ret)
    if os.listdir(d) != [path.name]:
        ctx.fail("stray-files", f"directory holds {os.listdir(d)}")
        return
    ctx.hit("kmz-files" if kmz else "kml-files")
    if kmz:
        names, bad, data = member(path)
        if names != ["doc.kml"] or bad:
            ctx.fail("archive", f"members {names}, bad {bad}", previous=prev)
            return
    else:
        data = path.read_bytes()
    ctx.ok(data)
    try:
        utext = data.decode("utf-8")
    except UnicodeDecodeError as e:
        ctx.fail("encoding", f"file is not UTF-8: {e}")
        return
    if not utext.isascii():
        ctx.hit("non-ascii")
    a, b = info_text(data), info_text(text)
    if a != b:
        ctx.fail("file-differs-from-string", f"[{be} {kw}] {info_diff(a, b)}", file=utext, string=text)
        return
    if not check_output(ctx, "file-content", node, utext, verbosity=verb, precision=precision):
        return
    ctx.ok(n=2)
    rbe = rng.choice(("lxml", "stdlib"))
    strict = rng.random() < 0.5
    with backend(rbe):
        again = read_back(ctx, KML, rng, path, kmz, strict)
        same = KML.from_string(text, strict=strict)
    ctx.check((path.read_bytes() if not kmz else member(path)[2]) == data, "parse-changes-file", path.name)
    got = canon(observe(again, parsed=True))
    ref = canon(observe(same, parsed=True))
    ctx.ok(n=2)
    if got != ref:
        ctx.fail("parse-differs-from-string", f"[{be}->{rbe}] {diff(ref, got)}", xml=text)
    if precision is None and verb == "normal":
        want = canon(node, group=True, angles=True, drop_falsy=True)
        got = canon(observe(again, parsed=True), group=True, angles=True)
        ctx.ok()
        if want != got:
            ctx.fail("parse-differs", f"[{be}->{rbe}] {diff(want, got)}", xml=text)
    if rng.random() < 0.02:
        ctx.sample(utext[:600])


def plant(rng, obj, node, be):
    """Make one object of the tree impossible to serialize."""
    places = []

    def rec(o, n):
        for fld in SPECS[n.cls].fields:
            v = n.get(fld.attr)
            if v is None:
                continue
            if fld.kind == "child":
                rec(getattr(o, fld.attr), v)
            elif fld.kind == "children":
                for x, m in zip(getattr(o, fld.attr), v):
                    rec(x, m)
            else:
                places.append((o, n, fld))
    rec(obj, node)
    rng.shuffle(places)
    for o, n, fld in places:
        k = fld.kind.removeprefix("A_")
        if k == "coords":
            o.coords = [(1.0, 2.0, 3.0, 4.0)] * 2
            return "coords", fld.attr
        if k in ("text", "ntext"):
            how = rng.choice(("object", "surrogate", "surrogate", "control"))
            v = {"object": object(), "surrogate": "a\ud800b", "control": "a\x01b"}[how]
            setattr(o, fld.attr, v)
            return how, fld.attr
        if k in ("enum", "dt"):
            setattr(o, fld.attr, object())
            return "object", fld.attr
    return None, None


def failing(ctx, rng, d):
    node = document(rng)
    kmz = rng.random() < 0.5
    path = d / ("f.kmz" if kmz else "f.kml")
    prev = previous(rng, path)
    before = path.read_bytes() if prev else None
    be = rng.choice(("lxml", "stdlib"))
    with backend(be):
        obj = build(node)
        how, attr = plant(rng, obj, node, be)
        if how is None:
            return
        try:
            obj.to_string().encode("utf-8")
        except Exception as e:
            err = e
        else:
            return  # nothing wrong with it (part not written, or written as is)
        try:
            obj.write(path)
        except Exception as e:
            ctx.hit("failed-writes")
            ctx.hit("failure:" + how)
            if not issubclass(type(e), type(err)) and not issubclass(type(err), type(e)):
                ctx.fail("other-error", f"[{be}] write raised {type(e).__name__}, to_string {type(err).__name__}")
        else:
            ctx.fail("error-swallowed", f"[{be}] write succeeded, to_string raises {type(err).__name__}: {err}")
    ctx.ok((how, attr, prev, kmz, be))
    after = path.read_bytes() if path.exists() else None
    if prev:
        ctx.hit("kept")
        if after != before:
            ctx.fail("file-destroyed", f"[{be}] failed write ({how} in {attr}) left {after[:40] if after is not None else None!r}... of {len(after or b'')} bytes instead of the previous {len(before)} bytes")
        if os.listdir(d) != [path.name]:
            ctx.fail("stray-files", f"failed write leaves {os.listdir(d)}")
    else:
        if after is not None:
            ctx.fail("file-left", f"[{be}] failed write ({how} in {attr}) left a file of {len(after)} bytes")


def encoded(ctx, rng, d):
    from fastkml import KML

    node = document(rng)
    enc = rng.choice(("utf-8", "utf-8-sig", "utf-16", "iso-8859-1", "us-ascii", "utf-16-le", "windows-1252"))
    decl = {"utf-8-sig": "UTF-8", "utf-16-le": "UTF-16"}.get(enc, enc)
    text = model_text(node, decl=f'<?xml version="1.0" encoding="{decl}"?>')
    if enc == "utf-16-le":
        data = b"\xff\xfe" + text.encode(enc)
    else:
        data = text.encode(enc, "xmlcharrefreplace")
    path = d / "e.kml"
    path.write_bytes(data)
    be = rng.choice(("lxml", "stdlib"))
    with backend(be):
        src = rng.choice(("path", "rb", "bytesio", "text", "stringio"))
        kw = {"strict": rng.random() < 0.5, "validate": False}
        if src == "path":
            obj = KML.parse(path, **kw)
        elif src == "rb":
            with path.open("rb") as f:
                obj = KML.parse(f, **kw)
        elif src == "text":
            # text is decoded already, whatever encoding its declaration names
            with path.open(encoding="utf-16" if enc == "utf-16-le" else enc) as f:
                obj = KML.parse(f, **kw)
            ctx.hit("text-handle")
        elif src == "stringio":
            obj = KML.parse(io.StringIO(text), **kw)
            ctx.hit("text-handle")
        else:
            obj = KML.parse(io.BytesIO(data), **kw)
    ctx.hit("encodings")
    ctx.hit("enc:" + enc)
    ctx.ok(data)
    want, got = canon(node, group=True, angles=True, drop_falsy=True), canon(observe(obj, parsed=True), group=True, angles=True)
    if want != got:
        ctx.fail("encoding-lost", f"[{be} {enc} {src}] {diff(want, got)}", xml=text)


def run(ctx, case_id, _):
    d = ctx.scratch / "files"
    d.mkdir()
    try:
        {"good": good, "fail": failing, "enc": encoded}[case_id.partition(":")[0]](ctx, ctx.rng, d)
    finally:
        for f in d.iterdir():
            f.unlink()
        d.rmdir()
