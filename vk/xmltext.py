"""
Own XML writer: turns an expected element tree into text in many lexical ways
(prefixes, quoting, CDATA, character references, comments, white space, number
and boolean forms, order of different properties).
"""

import datetime as dt
import random

from .refxml import Exp, expect
from .spec import ATOMURI, GXURI, KMLURI, Node


class Lex:
    """How to spell a document. Lex.plain() is the canonical spelling."""

    def __init__(self, rng=None, *, prefixes="default", shuffle=False, comments=False, cdata=False, charref=False,
                 pad=False, numbers=False, bools=False, quotes=False, coords=False, dts=False, pretty=False,
                 local_ns=False, junk=None):
        self.rng = rng or random.Random(0)
        self.prefixes = prefixes
        self.shuffle = shuffle
        self.comments = comments
        self.cdata = cdata
        self.charref = charref
        self.pad = pad
        self.numbers = numbers
        self.bools = bools
        self.quotes = quotes
        self.coords = coords
        self.dts = dts
        self.pretty = pretty
        self.local_ns = local_ns
        self.junk = junk  # callable(rng) -> [xml text] foreign siblings to insert
        self.junk_attrs = None  # callable(rng) -> [(name, value)]

    @classmethod
    def plain(cls):
        return cls()

    FLAGS = ("shuffle", "comments", "cdata", "charref", "pad", "numbers", "bools", "quotes", "coords", "dts",
             "pretty", "local_ns")

    @classmethod
    def random(cls, rng):
        lx = cls(rng, prefixes=rng.choice(("default", "default", "prefixed", "odd", "default_gx")))
        for f in cls.FLAGS:
            setattr(lx, f, rng.random() < 0.4)
        return lx

    def features(self):
        return [self.prefixes] + [f for f in self.FLAGS if getattr(self, f)]


def nsplan(lx, uris):
    """Map uri -> prefix ('' = default namespace)."""
    style = lx.prefixes
    if style == "default":
        m = {KMLURI: "", GXURI: "gx", ATOMURI: "atom"}
    elif style == "prefixed":
        m = {KMLURI: "kml", GXURI: "gx", ATOMURI: "atom"}
    elif style == "odd":
        m = {KMLURI: "gx", GXURI: "kml", ATOMURI: "_k.1"}  # prefixes carry no meaning
    else:  # the extension namespace is the default one
        m = {KMLURI: "k", GXURI: "", ATOMURI: "a"}
    i = 0
    taken = set(m.values())
    for u in uris:
        if u and u not in m:
            if style == "default" and KMLURI not in uris and "" in m.values() and u == uris[0]:
                m = {k: v for k, v in m.items() if v != ""}
                m[u] = ""
                continue
            while f"n{i}" in taken:
                i += 1
            m[u] = f"n{i}"
            taken.add(f"n{i}")
    return m


def esc_text(s, lx):
    r = lx.rng
    if lx.cdata and r.random() < 0.6 and "]]>" not in s:
        if len(s) > 2 and r.random() < 0.4:  # text split over sections and plain text
            k = r.randrange(1, len(s))
            return f"<![CDATA[{s[:k]}]]>" + (f"<![CDATA[{s[k:]}]]>" if r.random() < 0.5 else esc_plain(s[k:], lx))
        return f"<![CDATA[{s}]]>"
    return esc_plain(s, lx)


def esc_plain(s, lx):
    r = lx.rng
    out = []
    for ch in s:
        if ch == "&":
            out.append("&amp;" if not lx.charref or r.random() < 0.5 else "&#38;")
        elif ch == "<":
            out.append("&lt;" if not lx.charref or r.random() < 0.5 else "&#x3c;")
        elif ch == ">":
            out.append("&gt;")
        elif ch == "\r":
            out.append("&#13;")
        elif lx.charref and r.random() < (0.5 if ord(ch) > 127 else 0.05):
            out.append(r.choice((f"&#{ord(ch)};", f"&#x{ord(ch):x};", f"&#x{ord(ch):X};")))
        else:
            out.append(ch)
    if lx.comments and len(out) > 1 and r.random() < 0.15:
        out.insert(r.randrange(1, len(out)), r.choice(("<!-- in text -->", "<?pi in text?>")))
    return "".join(out)


def esc_attr(s, lx, q):
    r = lx.rng
    out = []
    for ch in s:
        if ch in "&<>\"'":
            out.append({"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&quot;", "'": "&apos;"}[ch])
        elif ch in "\n\t\r":
            out.append(f"&#{ord(ch)};")
        elif lx.charref and r.random() < (0.5 if ord(ch) > 127 else 0.05):
            out.append(f"&#{ord(ch)};")
        else:
            out.append(ch)
    return "".join(out)


def num(v, lx):
    base = repr(float(v))
    if not lx.numbers:
        return base
    r = lx.rng
    forms = [base]
    if float(v).is_integer() and abs(v) < 1e15:
        i = str(int(v))
        if v == 0 and base.startswith("-"):
            i = "-0"
        forms += [i, i + ".", i + ".000", i + "e0", i + "E+0"]
        forms.append(("-0" + i[1:]) if i.startswith("-") else "0" + i)
    if not base.startswith("-"):
        forms.append("+" + base)
    if "e" not in base:
        forms.append(base + "00")
        forms.append(base + "E0")
        if base.startswith("0."):
            forms.append(base[1:])
        if base.startswith("-0."):
            forms.append("-" + base[2:])
    else:
        forms.append(base.replace("e", "E"))
    return r.choice(forms)


def integer(v, lx):
    if not lx.numbers:
        return str(v)
    forms = [str(v)]
    if v >= 0:
        forms += [f"+{v}", f"0{v}", f"000{v}"]
    else:
        forms.append(f"-0{-v}")
    return lx.rng.choice(forms)


def time(v, lx):
    res, d = v
    if res == "gYear":
        return f"{d.year:04d}"
    if res == "gYearMonth":
        return f"{d.year:04d}-{d.month:02d}"
    if res == "date":
        return f"{d.year:04d}-{d.month:02d}-{d.day:02d}"
    s = f"{d.year:04d}-{d.month:02d}-{d.day:02d}T{d.hour:02d}:{d.minute:02d}:{d.second:02d}"
    if d.microsecond:
        frac = f"{d.microsecond:06d}"
        if lx.dts:
            frac = frac.rstrip("0")
        s += "." + frac
    elif lx.dts and lx.rng.random() < 0.3:
        s += "." + "0" * lx.rng.randint(1, 6)
    off = d.utcoffset() or dt.timedelta()
    mins = int(off.total_seconds() // 60)
    if mins == 0 and (not lx.dts or lx.rng.random() < 0.5):
        return s if lx.dts and lx.rng.random() < 0.2 else s + "Z"  # without an offset it is UTC
    sign = "-" if mins < 0 else "+"
    return s + f"{sign}{abs(mins) // 60:02d}:{abs(mins) % 60:02d}"


def render(kind, v, lx, attr=False):
    r = lx.rng
    if kind in ("text", "ntext", "raw"):
        return v
    if kind == "enum":
        return v
    if kind == "bool":
        return r.choice(("1", "true") if v else ("0", "false")) if lx.bools else str(int(v))
    if kind == "int":
        return integer(v, lx)
    if kind == "float":
        return num(v, lx)
    if kind == "dt":
        return time(v, lx)
    if kind == "coords":
        pts = []
        for p in v:
            comma = ","
            if lx.coords and r.random() < 0.3:
                comma = r.choice((", ", ",  "))
            pts.append(comma.join(num(c, lx) for c in p))
        sep = (lambda: r.choice((" ", "\n", "  ", "\t", "\n      ", " \n "))) if lx.coords else (lambda: " ")
        out = pts[0] if pts else ""
        for p in pts[1:]:
            out += sep() + p
        return out
    if kind == "triple":
        sep = r.choice((" ", "  ", "\t", "\n")) if lx.coords else " "
        return sep.join(num(c, lx) for c in v[0])
    raise AssertionError(kind)


WS = (" ", "\n", "\t", "\n    ", "  \n", "\r\n")


def uris_of(e: Exp, acc=None):
    acc = acc if acc is not None else []
    u = e.tag[1:].partition("}")[0] if e.tag.startswith("{") else ""
    if u not in acc:
        acc.append(u)
    for g in e.groups.values():
        for c in g:
            uris_of(c, acc)
    return acc


def interleave(groups, rng):
    """Random merge of the groups that keeps each group's order."""
    lists = [list(g) for g in groups if g]
    out = []
    while lists:
        g = rng.choice(lists)
        out.append(g.pop(0))
        if not g:
            lists.remove(g)
    return out


def to_text(e: Exp, lx: Lex, *, decl=None) -> str:
    uris = uris_of(e)
    plan = nsplan(lx, uris)
    body = emit(e, lx, plan, {}, 0, uris)
    head = ""
    if decl:
        head = decl + "\n"
    elif lx.comments and lx.rng.random() < 0.3:
        head = "<!-- prolog -->\n<?app note?>\n"
    return head + body


def emit(e, lx, plan, scope, depth, uris):
    r = lx.rng
    u, _, local = e.tag[1:].partition("}") if e.tag.startswith("{") else ("", "", e.tag)
    decls = []
    scope = dict(scope)
    if u:
        pre = plan[u]
        want = [u] if lx.local_ns else ([x for x in uris if x] if depth == 0 else [u])
        for x in want:
            p = plan[x]
            if scope.get(p) != x:
                scope[p] = x
                decls.append(("xmlns" + (":" + p if p else ""), x))
        name = f"{pre}:{local}" if pre else local
    else:
        if scope.get(""):
            scope[""] = ""
            decls.append(("xmlns", ""))
        name = local
    attrs = [(k, render(kind, v, lx, True)) for k, (kind, v) in e.attrs.items()]
    if lx.junk_attrs:
        attrs += lx.junk_attrs(r)
    if lx.quotes:
        r.shuffle(attrs)
        allattrs = decls + attrs
        r.shuffle(allattrs)
    else:
        allattrs = decls + attrs
    s = "<" + name
    for k, v in allattrs:
        q = r.choice("\"'") if lx.quotes else '"'
        sep = r.choice((" ", "  ", "\n ")) if lx.quotes else " "
        eq = r.choice(("=", " = ", "= ")) if lx.quotes else "="
        s += f"{sep}{k}{eq}{q}{esc_attr(v, lx, q)}{q}"
    groups = [g for g in e.groups.values() if g]
    kids = interleave(groups, r) if lx.shuffle else [c for g in groups for c in g]
    text = ""
    if e.text is not None:
        kind, v = e.text
        text = esc_text(render(kind, v, lx), lx) if kind in ("text", "ntext", "raw") else esc_plain_num(render(kind, v, lx), lx)
        if lx.pad and r.random() < 0.5:
            text = r.choice(WS) + text + r.choice(WS)
    inner = [emit(c, lx, plan, scope, depth + 1, uris) for c in kids]
    if lx.junk and e.text is None:
        for j in lx.junk(r):
            inner.insert(r.randrange(len(inner) + 1), j)
    if lx.comments and inner:
        for _ in range(r.choice((0, 0, 1, 2))):
            inner.insert(r.randrange(len(inner) + 1),
                         r.choice(("<!-- c -->", "<!-- <name>no</name> -->", "<?pi data?>", "<!---->")))
    if not inner and not text:
        return s + (r.choice(("/>", " />", f"></{name}>")) if lx.quotes else "/>")
    end = f"</{name}" + (r.choice(("", " ", "\n")) if lx.quotes else "") + ">"
    if lx.pretty and inner:
        pad = "\n" + "  " * (depth + 1)
        return s + ">" + text + pad + pad.join(inner) + "\n" + "  " * depth + end
    return s + ">" + text + "".join(inner) + end


def esc_plain_num(s, lx):
    return f"<![CDATA[{s}]]>" if lx.cdata and lx.rng.random() < 0.2 else s


def model_text(n: Node, lx=None, *, nskw=None, verbosity="normal", decl=None):
    return to_text(expect(n, nskw=nskw, verbosity=verbosity), lx or Lex.plain(), decl=decl)
