"""C24: the configured XML library and prefixes are used, everywhere and at once."""

import io
import json
import sys
import types
import xml.etree.ElementTree as ET
from xml.parsers import expat

from vk import proc
from vk.common import *
from vk.faults import BAD, sites
from vk.runner import backends
from vk.xmltext import Lex, model_text, to_text

RULE = ("random histories of choosing the XML library (lxml, the standard library, a recording stand-in with the ElementTree interface), registering prefixes, building, reading, writing and comparing; after each step all objects made so far are written and "
        "held against their models, every element produced must belong to the library chosen last, and the recording stand-in must have seen all of the work; the prefixes of the output are read by expat and compared with the registrations (also later ones for a namespace that had a prefix); fresh processes in which lxml cannot be imported do the same work as this one with the standard library chosen; non-trivial: distinct (history, document)")
NEED = {"switches": 3000, "to:lxml": 800, "to:stdlib": 800, "to:spy": 800, "objects-across": 3000, "elements-owned": 10000, "spy-elements": 5000, "prefixes": 2000, "prefix:gx": 200, "prefix:atom": 200, "prefix:custom": 200, "read-across": 1000,
        "errors-across": 200, "written-files": 200, "prefix:again": 200, "without-lxml": 20, "without-lxml-documents": 500}
ASSUMPTIONS = ["after choosing a library set_default_namespaces() is called, as the documentation says", "the prefix of the KML namespace in a whole document may be empty (default namespace)"]
KML, GX, ATOM = "http://www.opengis.net/kml/2.2", "http://www.google.com/kml/ext/2.2", "http://www.w3.org/2005/Atom"


class SpyElement(ET._Element_Py if hasattr(ET, "_Element_Py") else ET.Element):
    """An element of the recording library."""


def make_spy():
    """A module with the ElementTree interface that makes its own elements."""
    m = types.ModuleType("spy_etree")
    for k in dir(ET):
        if not k.startswith("__"):
            setattr(m, k, getattr(ET, k))
    log = {"Element": 0, "SubElement": 0, "tostring": 0, "fromstring": 0, "parse": 0, "register": 0}
    space = {}

    def element(tag, attrib={}, **extra):
        log["Element"] += 1
        return SpyElement(tag, attrib, **extra)

    def sub(parent, tag, attrib={}, **extra):
        log["SubElement"] += 1
        if not isinstance(parent, SpyElement):
            raise TypeError("parent of another library")
        e = SpyElement(tag, {**attrib, **extra})
        parent.append(e)
        return e

    def tostring(el, encoding=None, method=None, **kw):
        log["tostring"] += 1
        if "pretty_print" in kw:
            raise TypeError("unexpected keyword argument 'pretty_print'")
        for e in el.iter():
            if not isinstance(e, SpyElement):
                raise TypeError("element of another library")
        saved = dict(ET._namespace_map)
        ET._namespace_map.update(space)
        try:
            return ET.tostring(el, encoding=encoding, method=method, **kw)
        finally:
            ET._namespace_map.clear()
            ET._namespace_map.update(saved)

    def parser():
        return ET.XMLParser(target=ET.TreeBuilder(element_factory=SpyElement))

    def fromstring(text, parser=None):
        log["fromstring"] += 1
        return ET.fromstring(text, parser=parser or make_parser())

    make_parser = parser

    def parse(source, parser=None):
        log["parse"] += 1
        return ET.parse(source, parser=parser or make_parser())

    def xmlparser(*, target=None, encoding=None):
        return ET.XMLParser(target=target or ET.TreeBuilder(element_factory=SpyElement), encoding=encoding)

    def register(prefix, uri):
        log["register"] += 1
        for k, v in list(space.items()):
            if k == uri or v == prefix:
                del space[k]
        space[uri] = prefix

    m.Element, m.SubElement, m.tostring, m.fromstring, m.parse, m.register_namespace, m.XMLParser, m.ParseError, m.log = element, sub, tostring, fromstring, parse, register, xmlparser, ET.ParseError, log
    m.XML = fromstring
    m.TreeBuilder = lambda element_factory=None, **kw: ET.TreeBuilder(element_factory=element_factory or SpyElement, **kw)
    return m


def cases(tier, seed):
    yield from random_cases(7200 if tier == "quick" else 40000, "history")
    yield from random_cases(32 if tier == "quick" else 200, "nolxml")
    yield from random_cases(16000 if tier == "quick" else 60000, "prefix")


def owned(name, el):
    if name == "lxml":
        return type(el).__module__ == "lxml.etree"
    if name == "spy":
        return type(el) is SpyElement
    return type(el) is ET.Element


def choose(ctx, name, mods):
    from fastkml import config

    config.set_etree_implementation(mods[name])
    config.set_default_namespaces()
    ctx.hit("switches")
    ctx.hit("to:" + name)


def inspect(ctx, name, mods, obj, node, exp, what):
    """One object under the library chosen now."""
    spy = mods["spy"].log
    before = sum(spy.values())
    el = obj.etree_element()
    n = 0
    for e in el.iter():
        n += 1
        if not owned(name, e):
            ctx.fail("foreign-element", f"{what}: {type(e).__module__}.{type(e).__name__} under {name}", model=node)
            return False
    ctx.hit("elements-owned", n)
    ctx.ok(n=2)
    bad = compare(exp, el)
    if bad:
        ctx.fail("element-differs", f"{what}: {'; '.join(bad[:3])}", model=node)
        return False
    text = obj.to_string(prettyprint=ctx.rng.random() < 0.5)
    bad = compare(exp, parse(text))
    if bad:
        ctx.fail("output-differs", f"{what}: {'; '.join(bad[:3])}", model=node, output=text)
        return False
    used = sum(spy.values()) - before
    if name == "spy":
        ctx.hit("spy-elements", n)
        if not used:
            ctx.fail("library-bypassed", f"{what}: {n} elements written without the chosen library", model=node)
            return False
    elif used:
        ctx.fail("old-library-used", f"{what}: {used} calls of a library that is no longer chosen", model=node)
        return False
    return True


def history(ctx, rng):
    from fastkml import config
    from fastkml.exceptions import KMLParseError

    mods = {**backends(), "spy": make_spy()}
    old = config.etree
    objs = []
    steps = []
    name = rng.choice(sorted(mods))
    try:
        choose(ctx, name, mods)
        for _ in range(rng.choice((4, 6, 9))):
            op = rng.choice(("switch", "switch", "build", "read", "error", "write"))
            steps.append(op)
            spy0 = sum(mods["spy"].log.values())
            if op == "switch":
                name = rng.choice([k for k in sorted(mods) if k != name])
                choose(ctx, name, mods)
                steps[-1] += ":" + name
            elif op == "build":
                node = no_repeats(tree(rng))
                objs.append((build(node), node, name))
            elif op == "read":
                node = no_repeats(tree(rng))
                cls = SPECS[node.cls].pycls
                text = model_text(node)
                if node.cls == "KML" and rng.random() < 0.5:
                    o = cls.parse(io.BytesIO(text.encode()), validate=False)
                else:
                    o = cls.from_string(text)
                ctx.hit("read-across")
                ctx.ok()
                used = sum(mods["spy"].log.values()) - spy0
                if (used > 0) != (name == "spy"):
                    ctx.fail("read-library", f"reading under {name}: {used} calls of the recording library", xml=text)
                got = observe(o, parsed=True)
                want = canon(node, group=True, angles=True, drop_falsy=True)
                if canon(got, group=True, angles=True, drop_falsy=True) != want:
                    ctx.fail("read-differs", f"under {name} after {steps}: {diff(want, canon(got, group=True, angles=True, drop_falsy=True))}", xml=text)
                    return
                objs.append((o, got, name))
            elif op == "error":
                node = tree(rng)
                ps = sites(node)
                if ps:
                    m, f, k = rng.choice(ps)
                    text = to_text(expect(node, raw={(id(m), f.attr): rng.choice(BAD[k])}), Lex.plain())
                    ctx.hit("errors-across")
                    ctx.ok()
                    try:
                        SPECS[node.cls].pycls.from_string(text, strict=True)
                    except KMLParseError:
                        pass
                    else:
                        ctx.fail("error-lost", f"under {name}", xml=text)
                    SPECS[node.cls].pycls.from_string(text, strict=False)
            elif op == "write":
                ks = [(o, n) for o, n, _ in objs if n.cls == "KML"]
                if ks:
                    o, n = rng.choice(ks)
                    path = ctx.scratch / "w.kml"
                    o.write(path)
                    ctx.hit("written-files")
                    bad = compare(expect(n), parse(path.read_bytes()))
                    ctx.ok()
                    path.unlink()
                    used = sum(mods["spy"].log.values()) - spy0
                    if bad or (used > 0) != (name == "spy"):
                        ctx.fail("file-differs", f"under {name} after {steps}: {bad[:3]} {used}", model=n)
                        return
            for o, n, made in objs[-4:]:
                if made != name:
                    ctx.hit("objects-across")
                if not inspect(ctx, name, mods, o, n, expect(n), f"made under {made}, written under {name}, after {steps}"):
                    return
                if len(objs) > 1:
                    twin = build(n)
                    ctx.ok()
                    if canon(observe(twin)) == canon(n) and not (o == twin and twin == o):
                        ctx.fail("unequal-across", f"made under {made}, compared under {name}", model=n)
                        return
        ctx.distinct((steps, [repr(n)[:200] for _, n, _ in objs]))
    finally:
        config.set_etree_implementation(old)
        config.set_default_namespaces()


def used_prefixes(text):
    """(prefix, uri) of all element names, by expat."""
    out = set()
    p = expat.ParserCreate(namespace_separator=" ")
    p.namespace_prefixes = True

    def start(tag, attrs):
        parts = tag.split(" ")
        if len(parts) == 1:
            out.add(("", ""))
        else:
            out.add((parts[2] if len(parts) == 3 else "", parts[0]))

    p.StartElementHandler = start
    p.Parse(text.encode("utf-8", "surrogatepass") if isinstance(text, str) else text, True)
    return out


def prefix_case(ctx, rng):
    from fastkml import config

    mods = {**backends(), "spy": make_spy()}
    old, saved = config.etree, dict(ET._namespace_map)
    name = rng.choice(("lxml", "stdlib", "spy"))
    node = tree(rng)
    try:
        choose(ctx, name, mods)
        want = {KML: "kml", GX: "gx", ATOM: "atom"}
        nskw = None
        if rng.random() < 0.5:
            # other namespaces, with prefixes of their own
            tag = rng.choice(("foo", "earth", "k22", "Ex_1"))
            uri = f"http://{tag}.example.org/" + rng.choice(("", "kml", "a/b#c"))
            config.register_namespaces(**{tag: uri})
            want[uri] = tag
            which = rng.choice(("kml", "gx"))
            nskw = {which: "{%s}" % uri}
            ctx.hit("prefix:custom")
        if rng.random() < 0.3:
            # the last registration for a namespace counts
            uri = rng.choice(sorted(want))
            tag = rng.choice(("google", "g2", "zz", "own"))
            config.register_namespaces(**{tag: uri})
            want[uri] = tag
            ctx.hit("prefix:again")
        elif rng.random() < 0.3:
            config.set_default_namespaces()
        if rng.random() < 0.3:
            config.register_namespaces(unused="http://unused.example.org/")
        obj = build(node, nskw)
        text = obj.to_string(prettyprint=rng.random() < 0.5)
        got = used_prefixes(text)
        ctx.hit("prefixes")
        ctx.ok(text, n=2)
        uris = {u for _, u in got}
        if GX in uris:
            ctx.hit("prefix:gx")
        if ATOM in uris:
            ctx.hit("prefix:atom")
        root_uri = want and (nskw or {}).get("kml", "{%s}" % KML)[1:-1]
        for pre, uri in got:
            if uri in want and pre != want[uri] and not (pre == "" and uri in (KML, root_uri)):
                ctx.fail("prefix-differs", f"{name}: {uri} has the prefix {pre!r} instead of {want[uri]!r}", output=text)
                return
        bad = compare(expect(node, nskw=nskw), parse(text))
        if bad:
            ctx.fail("prefix-changes-content", f"{name}: {'; '.join(bad[:3])}", output=text)
    finally:
        config.set_etree_implementation(old)
        config.set_default_namespaces()
        ET._namespace_map.clear()
        ET._namespace_map.update(saved)
    if rng.random() < 0.01:
        ctx.sample(text[:400])


def nolxml_main(seed):
    """A process in which lxml is not installed."""
    class Absent:
        def find_spec(self, name, path=None, target=None):
            if name == "lxml" or name.startswith("lxml."):
                raise ModuleNotFoundError(f"No module named {name!r}", name=name)
            return None

    sys.meta_path.insert(0, Absent())
    proc.quiet()
    try:
        import fastkml  # noqa: F401
        from fastkml import config
    except ImportError as e:
        print(json.dumps({"error": f"import failed: {e!r}"}))
        return
    print(json.dumps({"library": config.etree.__name__, "res": proc.work(seed, 24)}))


def nolxml(ctx, case_id):
    seed = f"C24:{ctx.seed}:{case_id}"
    with backend("stdlib"):
        want = proc.here(seed, 24, ctx.scratch)
    d = proc.start("import sys; sys.setrecursionlimit(20000); from checks import c24; c24.nolxml_main(sys.argv[1])", [seed], cwd=ctx.scratch)
    ctx.hit("without-lxml")
    ctx.ok()
    if d.get("error"):
        ctx.fail("needs-lxml", f"without lxml the package does not work: {d['error']}")
        return
    if d["library"] != "xml.etree.ElementTree":
        ctx.fail("needs-lxml", f"without lxml the library in use is {d['library']}")
    for job in proc.jobs(seed, 24):
        ctx.hit("without-lxml-documents")
        ctx.ok(job[1])
    if bad := proc.differences(d["res"], want):
        i, op, got, exp = bad
        ctx.fail("without-lxml-differs", f"{op}: without lxml {str(got)[:300]}, with the standard library chosen {str(exp)[:300]}", xml=proc.jobs(seed, 24)[i][1])


def run(ctx, case_id, payload):
    if case_id.startswith("nolxml"):
        nolxml(ctx, case_id)
    elif case_id.startswith("history"):
        history(ctx, ctx.rng)
    else:
        prefix_case(ctx, ctx.rng)
