"""C21: foreign content is skipped without harm."""

import ctypes
import ctypes.util
import io
import os
import socket
import struct
import sys
import threading

from vk.common import *
from vk.refxml import Exp, leaf, short
from vk.spec import ATOMURI, GXURI, KMLURI
from vk.xmltext import Lex, to_text

RULE = ("every class and random documents get unknown elements (foreign and unknown KML/gx/Atom names, misplaced known elements, with known content inside), attributes, comments and processing instructions inserted at random places, at every element once, and are read by both "
        "libraries in both modes: the result must equal reading the clean text and the model; documents with external entities, DTDs, parameter entities, XInclude and schema locations are read while inotify, audit events and a loopback server watch: the named files are never opened, no connection is made and no outside content appears; "
        "non-trivial: distinct text")
NEED = {"reads": 3000, "junk-elements": 5000, "junk-attrs": 1000, "junk:misplaced": 500, "junk-only": 1000, "junk:foreign": 500, "junk:unknown": 500, "entity-reads": 200, "audit-events": 100, "mode:strict": 500, "mode:lenient": 500}
ASSUMPTIONS = ["external access is watched by inotify where the kernel offers it, by Python audit events, by a loopback server and by a token in the files"]
JUNS = ("http://example.com/junk", "urn:vendor", "http://www.w3.org/1999/xhtml", "http://www.opengis.net/kml/9.9", "")
UNKNOWN = ("unknownThing", "Name", "PLACEMARK", "coordinate", "styleurl", "nameX", "Tour", "vk", "Url", "Metadata", "labelX", "Feature", "AbstractView", "placemark")
KNOWN = sorted({s.tag for s in SPECS.values()} | {f.node for s in SPECS.values() for f in s.fields if f.node and not f.kind.startswith("A_")})
TOKEN = "TOKEN-7f3a-outside"


def tags_of():
    out = {}
    for s in SPECS.values():
        k = out.setdefault(s.tag, set())
        for f in s.fields:
            if f.node and not f.kind.startswith("A_"):
                k.add(f.node)
            for c in f.classes:
                k.add(SPECS[c].tag)
            if f.kind == "track":
                k |= {"when", "coord", "angles"}
    return out


BELOW = tags_of()


def cases(tier, seed):
    yield from sweep_cases(seed, lambda label, n: label[0] in ("min", "full", "child", "children", "mixed"))
    yield from random_cases(16000 if tier == "quick" else 100000)
    yield from random_cases(1600 if tier == "quick" else 5000, "entity")


# ------------------------------------------------------------------ monitors
class Watch:
    """inotify on a directory: which files were opened, by whatever code."""

    def __init__(self, path):
        self.fd = -1
        try:
            libc = ctypes.CDLL(None, use_errno=True)
            self.fd = libc.inotify_init1(os.O_NONBLOCK | os.O_CLOEXEC)
            if self.fd >= 0 and libc.inotify_add_watch(self.fd, os.fsencode(path), 0x20 | 0x01) < 0:  # IN_OPEN | IN_ACCESS
                os.close(self.fd)
                self.fd = -1
        except (OSError, AttributeError):
            self.fd = -1

    def events(self):
        out = []
        if self.fd < 0:
            return out
        while True:
            try:
                data = os.read(self.fd, 65536)
            except BlockingIOError:
                return out
            i = 0
            while i < len(data):
                _, mask, _, n = struct.unpack_from("iIII", data, i)
                if not mask & 0x40000000:  # not the directory itself
                    out.append(data[i + 16:i + 16 + n].rstrip(b"\0").decode())
                i += 16 + n


STATE = {}


def setup(ctx):
    d = ctx.scratch / "outside"
    d.mkdir()
    (d / "token.txt").write_text(TOKEN)
    (d / "ext.dtd").write_text(f'<!ENTITY fromdtd "{TOKEN}">\n<!ATTLIST Placemark id CDATA "{TOKEN}">\n<!ATTLIST kml vk CDATA "{TOKEN}">')
    (d / "part.xml").write_text(f'<name xmlns="{KMLURI}">{TOKEN}</name>')
    (d / "schema.xsd").write_text("<x/>")
    STATE["dir"] = d
    STATE["watch"] = Watch(d)
    srv = socket.socket()
    srv.bind(("127.0.0.1", 0))
    srv.listen(16)
    srv.setblocking(False)
    STATE["srv"], STATE["port"] = srv, srv.getsockname()[1]
    STATE["events"] = []
    STATE["on"] = False

    def hook(name, args):
        if STATE["on"] and name in ("open", "socket.connect", "socket.getaddrinfo", "urllib.Request", "subprocess.Popen", "os.system"):
            STATE["events"].append((name, str(args)[:200]))

    sys.addaudithook(hook)
    # the monitors work: opening a file shows in both
    STATE["on"] = True
    (d / "token.txt").read_text()
    STATE["on"] = False
    assert STATE["events"], "audit hook is silent"
    ctx.hit("inotify" if STATE["watch"].events() else "no-inotify")
    STATE["events"].clear()


# ------------------------------------------------------------------ injection
def junk(rng, known_parent, depth=0):
    """One unknown element (an Exp) and its kind."""
    roll = rng.random()
    below = BELOW.get(known_parent, set())
    if roll < 0.4:
        ns, name, kind = rng.choice(JUNS[:4]), rng.choice(UNKNOWN + tuple(KNOWN)), "foreign"
    elif roll < 0.7:
        ns, name, kind = rng.choice((KMLURI, KMLURI, GXURI, ATOMURI, "")), rng.choice(UNKNOWN), "unknown"
    else:
        cand = [k for k in KNOWN if k not in below]
        ns, name, kind = rng.choice((KMLURI, KMLURI, GXURI)), rng.choice(cand), "misplaced"
        if name in ("author", "link", "contributor", "uri", "email"):
            ns = ATOMURI
    e = Exp(f"{{{ns}}}{name}" if ns else name)
    if rng.random() < 0.4:
        e.attrs[rng.choice(("id", "name", "href", "x", "targetId", "foo"))] = ("text", "junk")
    if rng.random() < 0.6:
        e.text = ("text", rng.choice(("junk", "1", "true", "1,2 3,4", "abc & <b>", "2020-01-01")))
    if depth < 2 and rng.random() < 0.5:
        if rng.random() < 0.5:
            gen = g.Gen(rng, max_depth=1, fill=0.2)
            e.groups["known"] = [expect(gen.any_node(minimal=True))]
        else:
            e.groups["more"] = [junk(rng, name, depth + 1)[0]]
    return e, kind


def inject(e, rng, p, ctx, leafs):
    kids = [c for grp in e.groups.values() for c in grp]
    name = short(e.tag)
    simple = name not in BELOW and not kids
    n = 0
    if rng.random() < p and (leafs or not simple):
        for i in range(rng.choice((1, 1, 2))):
            j, kind = junk(rng, name)
            e.groups[f"junk{i}"] = [j]
            ctx.hit("junk:" + kind)
            n += 1
    for c in kids:
        n += inject(c, rng, p, ctx, leafs)
    return n


def jattrs(ctx, p):
    def f(r):
        if r.random() >= p:
            return []
        ctx.hit("junk-attrs")
        return r.choice((
            [("xmlns:jx", "urn:j"), ("jx:id", "evil")], [("xmlns:jx", "urn:j"), ("jx:name", "evil"), ("jx:href", "evil")], [("unknownAttr", "1")], [("ID", "evil")], [("xml:lang", "de")],
            [("xmlns:xsi", "http://www.w3.org/2001/XMLSchema-instance"), ("xsi:schemaLocation", f"{KMLURI} file:///nonexistent/x.xsd")], [("xml:space", "preserve")], [("Type", "x"), ("x-y", "z")],
            [("xmlns:kk", KMLURI), ("kk:unknown", "evil")], [("xmlns:gg", GXURI), ("gg:targetId", "evil")],
        ))

    return f


def read(cls, text, strict, how):
    if how == "parse":
        return cls.parse(io.BytesIO(text.encode()), strict=strict, validate=False)
    return cls.from_string(text, strict=strict)


def run(ctx, case_id, node):
    if case_id.startswith("entity"):
        return entity(ctx)
    rng = ctx.rng
    if node is None:
        node = tree(rng)
    cls = SPECS[node.cls].pycls
    want = canon(node, group=True, angles=True, drop_falsy=True)
    for _ in range(2):
        exp = expect(node)
        if rng.random() < 0.4:  # elements of unset values that hold nothing but foreign elements
            exp = blanks(ctx, rng, node, texts=(" ", "\n  "), p=rng.choice((0.1, 0.4)))
            for e in walk(exp):
                if e.text is not None and e.text[0] == "raw" and not e.text[1].strip():
                    j, kind = junk(rng, short(e.tag))
                    e.groups["only"] = [j]
                    if rng.random() < 0.5:
                        e.text = None
                    ctx.hit("junk-only")
        lex = Lex.random(rng)
        lex.comments = lex.comments or rng.random() < 0.5
        n = inject(exp, rng, rng.choice((0.1, 0.5, 1.0)), ctx, rng.random() < 0.3)
        ctx.hit("junk-elements", n)
        if rng.random() < 0.5:
            lex.junk_attrs = jattrs(ctx, rng.choice((0.2, 0.7)))
        text = to_text(exp, lex)
        be = rng.choice(("lxml", "stdlib"))
        strict = rng.random() < 0.5
        how = "parse" if node.cls == "KML" and rng.random() < 0.5 else "string"
        ctx.hit("reads")
        ctx.hit("mode:" + ("strict" if strict else "lenient"))
        with backend(be):
            try:
                obj = read(cls, text, strict, how)
            except Exception as e:
                ctx.ok()
                ctx.fail("error", f"[{be} {how} strict={strict}] {type(e).__name__}: {str(e)[:300]}", xml=text)
                return
        got = canon(observe(obj, parsed=True), group=True, angles=True)
        ctx.ok(text)
        if got != want:
            ctx.fail("changed", f"[{be} {how} strict={strict}] {diff(want, got)}", xml=text)
            return
        with backend(be):
            clean = read(cls, to_text(expect(node), Lex.plain()), strict, how)
            ctx.ok()
            if clean.__dict__.keys() != obj.__dict__.keys():
                ctx.fail("extra-attributes", f"{sorted(set(obj.__dict__) ^ set(clean.__dict__))}", xml=text)
            elif lex.prefixes == "default" and not lex.shuffle and not (clean == obj):
                ctx.fail("unequal", f"[{be} {how} strict={strict}] the object differs from the one read from the clean text", xml=text)
    if rng.random() < 0.01:
        ctx.sample(text[:900])


# ------------------------------------------------------------------ outside content
def entity(ctx):
    rng = ctx.rng
    d, port = STATE["dir"], STATE["port"]
    gen = g.Gen(rng, fill=0.3, max_depth=2)
    root = rng.choice(("KML", "KML", "Document", "Placemark", "Folder"))
    node = gen.kml() if root == "KML" else gen.node(root)
    where = rng.choice((f"file://{d}/token.txt", str(d / "token.txt"), "outside/token.txt", f"http://127.0.0.1:{port}/token.txt", f"file:{d}/token.txt", "../w0/outside/token.txt", f"ftp://127.0.0.1:{port}/t"))
    dtd = rng.choice((f"file://{d}/ext.dtd", str(d / "ext.dtd"), f"http://127.0.0.1:{port}/ext.dtd"))
    kind = rng.choice(("general", "parameter", "subset", "attlist", "xinclude", "stylesheet", "schema", "unparsed", "internal-indirect"))
    exp = expect(node)
    target = [e for e in walk(exp) if short(e.tag) in ("Placemark", "Document", "Folder", "kml")]
    lex = Lex.random(rng)
    name = short(exp.tag)
    u = exp.tag[1:].partition("}")[0]
    ref = "&x;" if kind in ("general", "unparsed", "internal-indirect") else "&fromdtd;" if kind in ("parameter", "subset") else ""
    prolog = {
        "general": f'<!DOCTYPE {name} [<!ENTITY x SYSTEM "{where}">]>',
        "unparsed": f'<!DOCTYPE {name} [<!ENTITY x PUBLIC "-//X//Y" "{where}">]>',
        "internal-indirect": f'<!DOCTYPE {name} [<!ENTITY y SYSTEM "{where}"><!ENTITY x "a&y;b">]>',
        "parameter": f'<!DOCTYPE {name} [<!ENTITY % p SYSTEM "{dtd}"> %p;]>',
        "subset": f'<!DOCTYPE {name} SYSTEM "{dtd}">',
        "attlist": f'<!DOCTYPE {name} PUBLIC "-//OGC//KML" "{dtd}">',
        "stylesheet": f'<?xml-stylesheet type="text/xsl" href="{where}"?>',
    }.get(kind, "")
    marker = "VKMARK9"
    if kind == "xinclude":
        x = Exp("{http://www.w3.org/2001/XInclude}include")
        x.attrs["href"] = ("text", f"file://{d}/part.xml")
        for e in target[:3]:
            e.groups["xi"] = [x]
    if ref:
        # the reference stands where a text value is
        t = rng.choice(target) if target else exp
        t.groups["name"] = [leaf(f"{{{u}}}name", "text", marker)]
        lex.cdata = False
        lex.charref = False
    if kind == "schema":
        lex.junk_attrs = lambda r: [("xmlns:xsi", "http://www.w3.org/2001/XMLSchema-instance"), ("xsi:schemaLocation", f"{KMLURI} {d}/schema.xsd urn:x http://127.0.0.1:{port}/s.xsd"), ("xsi:noNamespaceSchemaLocation", f"{d}/schema.xsd")]
    text = prolog + to_text(exp, lex)
    if ref:
        text = text.replace(marker, rng.choice((ref, "a " + ref + " b")))
    cls = SPECS[root].pycls
    be = rng.choice(("lxml", "stdlib"))
    strict = rng.random() < 0.5
    how = rng.choice(("parse", "file", "string")) if root == "KML" else "string"
    path = ctx.scratch / "in.kml"
    if how == "file":
        path.write_text(text, encoding="utf-8")
    STATE["watch"].events()
    STATE["events"].clear()
    out = ""
    with backend(be):
        STATE["on"] = True
        try:
            if how == "file":
                obj = cls.parse(str(path), strict=strict, validate=rng.choice((False, False, None)))
            else:
                obj = read(cls, text, strict, how)
            out = obj.to_string() + repr(obj)
            ctx.hit("entity-read-ok")
        except Exception as e:  # an error is allowed, outside access is not
            out = str(e)
            ctx.hit("entity-error:" + type(e).__name__)
        finally:
            STATE["on"] = False
    ctx.hit("entity-reads")
    ctx.hit("entity:" + kind)
    ctx.ok(text)
    ctx.hit("audit-events", 1 + len(STATE["events"]))
    what = f"{kind} via {how} with {be}, {where if 'x' in ref else dtd}"
    if TOKEN in out:
        ctx.fail("outside-content", f"{what}: content of an outside file was read in", xml=text)
    ev = STATE["watch"].events()
    if ev:
        ctx.fail("file-opened", f"{what}: {sorted(set(ev))} opened", xml=text)
    bad = [x for x in STATE["events"] if x[0] != "open" or str(d) in x[1]]
    if bad:
        ctx.fail("audit", f"{what}: {bad[:3]}", xml=text)
    try:
        c, _ = STATE["srv"].accept()
        c.close()
        ctx.fail("connection", f"{what}: a connection was made", xml=text)
    except BlockingIOError:
        pass


def walk(e):
    yield e
    for grp in e.groups.values():
        for c in grp:
            yield from walk(c)
