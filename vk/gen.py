"""Seeded generators of abstract KML models with hostile edge values."""

import datetime as dt
import random
import string

from .spec import ALL, ENUMS, FEATURES, SPECS, Node  # noqa: F401

UTC = dt.timezone.utc

TEXTS = (
    "a", "0", "None", "false", "1.0", "plain text", "Grüße aus Köln", "Ελληνικά", "Привет",
    "日本語テキスト", "مرحبا", "e\u0301 combining", "emoji \U0001f30d\U0001f680", "a & b", "<b>bold</b>",
    "x < y > z", 'quote " and \' apostrophe', "]]>", "<![CDATA[x]]>", "&amp; &lt;", "<!-- c -->",
    "line one\nline two", "tab\there", "two  spaces", "non\u00a0breaking", "#style", "#", "100%", "{ns}tag",
    "$[name]", "a,b c", "-", "true", "line\u2028sep", "end.", "x" * 300, "µ", "\ufeffbom", "id-1_2.3",
    "http://ex.org/a?b=1&c=%20", "C:\\path\\file", "<p style=\"color:#f00\">k&eacute;</p>",
    "para one\n\n\n\npara two", "a\t\t\tb    c \n \n d", "<![CDATA[<b>x</b>]]> and more", "50%s", "%d of %(a)s", "{0} {name!r}", "100 %", "%Y-%m-%d",
)
IDS = ("id1", "a", "ID_2", "x-1.y", "0", "ünïcode", "with space", "khStyle716", "A&B", "<i>", "#frag", "é")
NCNAMES = ("id1", "a", "ID_2", "x-1.y", "khStyle716", "_u", "Zz9", "s.1")
URIS_ = ("http://example.com/a.kml", "#style1", "files/x.png", "http://ex.org/?a=1&b=2#c",
         "../up.kmz/doc.kml#s", "https://user@host:8080/p", "a", "file.kml#with%20space")
COLORS = ("ffffffff", "ff000000", "7f0000ff", "00000000", "FFAABBCC", "01234567")
EMAILS = ("a@b.de", "first.last@ex.org", "x_y@z.info")
LANGS = ("en", "de-DE", "zh")
FLOATS = (0.0, 1.0, -1.0, 0.5, -0.5, 4.0, 1e-7, -1e-7, 1e-5, 0.1, 1 / 3, 123456.789, -122.0822035425683,
          37.42228990140251, 89.99999999, -179.999999999, 1e10, 1e16, 1e17, -1e20, 2.5, 0.30000000000000004,
          5e-324, 1.7976931348623157e308, 180.0, -180.0, 90.0, 360.0, 256.0, 100.25, 1e22, 12345678901234567.0)
INTS = (0, 1, -1, 2, 128, 255, 256, 512, -256, 10, 2**31 - 1, -(2**31), 2**40, 10**18)


def _tz(rng):
    return rng.choice((UTC, UTC, UTC, dt.timezone(dt.timedelta(hours=1)), dt.timezone(dt.timedelta(hours=-7)),
                       dt.timezone(dt.timedelta(hours=5, minutes=30)), dt.timezone(dt.timedelta(hours=-9, minutes=-30)),
                       dt.timezone(dt.timedelta(hours=14)), dt.timezone(dt.timedelta(hours=-12)),
                       dt.timezone(dt.timedelta(hours=5, minutes=45))))


def gen_dt(rng, res=None):
    """A (resolution, date or aware datetime) pair."""
    res = res or rng.choice(("dateTime", "dateTime", "date", "gYearMonth", "gYear"))
    year = rng.choice((1, 2, 9, 99, 476, 999, 1000, 1582, 1900, 1969, 1970, 1997, 1999, 2000, 2001, 2020, 2024, 2038,
                       2100, 9999, rng.randint(1, 9999), rng.randint(1900, 2100)))
    month = rng.choice((1, 2, 9, 10, 12, rng.randint(1, 12)))
    day = rng.choice((1, 9, 10, 28, rng.randint(1, 28)))
    if month == 2 and year % 4 == 0 and (year % 100 or year % 400 == 0) and rng.random() < 0.3:
        day = 29
    if month == 12 and rng.random() < 0.3:
        day = 31
    if res == "gYear":
        return (res, dt.date(year, 1, 1))
    if res == "gYearMonth":
        return (res, dt.date(year, month, 1))
    if res == "date":
        return (res, dt.date(year, month, day))
    h, m, s = rng.choice(((0, 0, 0), (23, 59, 59), (12, 0, 0), (0, 0, 1),
                          (rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))))
    us = rng.choice((0, 0, 0, 1, 10, 500000, 999999, 123456, 120000, rng.randint(0, 999999)))
    if year in (1, 9999):
        tz = UTC
    else:
        tz = _tz(rng)
    return (res, dt.datetime(year, month, day, h, m, s, us, tzinfo=tz))


class Gen:
    """
    Random models.

    valid=True keeps every value inside the lexical space of the KML schema.
    simple=True avoids characters a given boundary normalises (used with care).
    """

    def __init__(self, rng: random.Random, *, valid=False, fill=0.35, max_depth=4, big=False):
        self.rng = rng
        self.valid = valid
        self.fill = fill
        self.max_depth = max_depth
        self.big = big
        self._id = 0

    # ------------------------------------------------------------- scalars
    def text(self, role="", attr=False):
        r = self.rng
        if role == "color":
            return r.choice(COLORS)
        if role == "ncname" or (role == "id" and self.valid):
            self._id += 1
            return r.choice(NCNAMES) + f"_{self._id}"
        if role == "uri":
            return r.choice(URIS_)
        if role == "email":
            return r.choice(EMAILS)
        if role == "lang":
            return r.choice(LANGS)
        if role == "id":
            return r.choice(IDS) if r.random() < 0.7 else "i" + str(r.randint(0, 9999))
        roll = r.random()
        if roll < 0.6:
            t = r.choice(TEXTS)
        elif roll < 0.65:
            t = "".join(r.choice("abXY09  \t\n\n,.;<&") for _ in range(r.randint(2, 60)))
        elif roll < 0.8:
            t = "".join(r.choice(string.ascii_letters + string.digits + " _-.,;:!?/()") for _ in range(r.randint(1, 40)))
        else:
            t = " ".join(r.choice(TEXTS) for _ in range(r.randint(1, 4)))
        t = t.strip()
        return t or "t"

    def float_(self, role=""):
        r = self.rng
        if self.valid:
            lo, hi = {"angle180": (-180, 180), "angle90": (-90, 90), "angle360": (-360, 360), "anglepos180": (0, 180),
                      "anglepos90": (0, 90), "pos": (0, 1000)}.get(role, (-1e6, 1e6))
            v = r.choice((float(lo), float(hi), 0.0, r.uniform(lo, hi), round(r.uniform(lo, hi), 3)))
            return max(float(lo), min(float(hi), v))
        roll = r.random()
        if roll < 0.55:
            return r.choice(FLOATS)
        if roll < 0.8:
            return r.uniform(-180, 180)
        return r.uniform(-1, 1) * 10.0 ** r.randint(-9, 12)

    def int_(self, role=""):
        r = self.rng
        if self.valid:
            return r.choice((0, 1, 2, 128, 256, 1024, r.randint(0, 100000)))
        return r.choice(INTS) if r.random() < 0.7 else r.randint(-100000, 100000)

    def scalar(self, fld):
        k = fld.kind.removeprefix("A_")
        if fld.default is not None and self.rng.random() < 0.2:
            return fld.default
        if k in ("text", "ntext"):
            return self.text(fld.role, fld.kind.startswith("A_"))
        if k == "bool":
            return self.rng.random() < 0.5
        if k == "int":
            return self.int_(fld.role)
        if k == "float":
            return self.float_(fld.role)
        if k == "enum":
            return self.rng.choice(ENUMS[fld.enum])
        if k == "dt":
            return gen_dt(self.rng)
        raise AssertionError(fld)

    # ------------------------------------------------------------- geometry
    def coord(self, dim, role=None):
        r = self.rng
        out = []
        for i in range(dim):
            roll = r.random()
            if roll < 0.25:
                out.append(float(r.randint(-180, 180)))
            elif roll < 0.4 and not self.valid:
                out.append(r.choice(FLOATS[:22]))
            else:
                out.append(r.uniform(-180, 180) if i != 1 else r.uniform(-90, 90))
        return tuple(out)

    def coords(self, cls):
        r = self.rng
        dim = r.choice((2, 3))
        if cls == "Point":
            return [self.coord(dim)]
        if cls == "LineString":
            n = r.choice((2, 2, 3, 4, 10, r.randint(2, 30)))
            if self.big and r.random() < 0.1:
                n = r.randint(100, 400)
            pts = [self.coord(dim) for _ in range(n)]
            if r.random() < 0.15:
                pts[1] = pts[0]
            if r.random() < 0.15:  # ends where it begins, and still is a line
                pts[-1] = pts[0]
            return pts
        pts = [self.coord(dim) for _ in range(r.choice((3, 3, 4, 5, r.randint(3, 20))))]
        pts.append(pts[0])
        return pts

    def track_items(self):
        r = self.rng
        dim = r.choice((2, 3))
        n = r.choice((1, 2, 2, 3, 5, r.randint(1, 20)))
        angle_mode = r.choice(("none", "all", "all", "mixed"))
        items = []
        for _ in range(n):
            ang = None
            if angle_mode == "all" or (angle_mode == "mixed" and r.random() < 0.5):
                ang = tuple(r.choice((0.0, 90.0, -45.5, r.uniform(-180, 180))) for _ in range(3))
            items.append((gen_dt(r), self.coord(dim), ang))
        return items

    # ------------------------------------------------------------- nodes
    def node(self, cls, depth=0, full=False, minimal=False) -> Node:
        spec = SPECS[cls]
        r = self.rng
        n = Node(cls)
        for fld in spec.fields:
            need = fld.attr in spec.mandatory
            if not need and (minimal or not (full or r.random() < self.fill)):
                continue
            v = self.value(cls, fld, depth, full=full, minimal=minimal)
            n.put(fld.attr, v)
        return n

    def value(self, cls, fld, depth, *, full=False, minimal=False):
        r = self.rng
        if fld.kind == "coords":
            return self.coords("LineString")
        if fld.kind == "track":
            return self.track_items()
        if fld.kind == "child":
            c = r.choice(fld.classes)
            if c == "Coordinates":
                return Node("Coordinates", coords=self.coords(cls))
            if depth >= self.max_depth and fld.attr not in SPECS[cls].mandatory:
                return None
            return self.node(c, depth + 1, minimal=minimal or depth >= self.max_depth)
        if fld.kind == "children":
            return self.children(cls, fld, depth, minimal=minimal)
        return self.scalar(fld)

    def children(self, cls, fld, depth, minimal=False):
        r = self.rng
        need = fld.attr in SPECS[cls].mandatory
        if depth >= self.max_depth:
            if not need:
                return None
            minimal = True
        count = 1 if minimal else r.choice((1, 1, 2, 3, r.randint(1, 5)))
        classes = fld.classes
        if depth + 1 >= self.max_depth:
            classes = tuple(c for c in classes if c not in ("Document", "Folder", "MultiGeometry")) or classes
        out = []
        for _ in range(count):
            c = r.choice(classes)
            out.append(self.node(c, depth + 1, minimal=minimal))
        if fld.attr == "fields":
            pass
        return out

    def any_node(self, classes=ALL, **kw):
        return self.node(self.rng.choice(classes), **kw)

    def kml(self, breadth=None, containers=True):
        """A whole document: features nested in containers."""
        r = self.rng
        n = Node("KML")
        feats = []
        for _ in range(breadth or r.choice((1, 1, 2, 3, 4))):
            c = r.choice(("Document", "Folder", "Placemark", "GroundOverlay", "PhotoOverlay", "ScreenOverlay",
                          "NetworkLink", "NetworkLinkControl"))
            feats.append(self.node(c, 0))
        n.put("features", feats)
        return n


def pool(fld):
    """Every edge value worth trying for one scalar field (systematic sweep)."""
    k = fld.kind.removeprefix("A_")
    if k in ("text", "ntext"):
        base = {"color": COLORS, "uri": URIS_ + TEXTS[:14], "email": EMAILS, "lang": LANGS, "ncname": NCNAMES,
                "id": IDS}.get(fld.role, TEXTS)
        vals = list(base)
    elif k == "bool":
        vals = [True, False]
    elif k == "int":
        vals = list(INTS)
    elif k == "float":
        vals = list(FLOATS)
    elif k == "enum":
        vals = list(ENUMS[fld.enum])
    elif k == "dt":
        r = random.Random(7)
        vals = [gen_dt(r, res) for res in ("dateTime", "date", "gYearMonth", "gYear") for _ in range(6)]
        vals += [("gYear", dt.date(1, 1, 1)), ("gYearMonth", dt.date(999, 2, 1)), ("date", dt.date(9999, 12, 31)),
                 ("dateTime", dt.datetime(2000, 2, 29, 23, 59, 59, 1, tzinfo=UTC))]
    else:
        vals = []
    if fld.default is not None and fld.default not in vals:
        vals.append(fld.default)
    return vals


def is_scalar(fld):
    return fld.kind not in ("child", "children", "coords", "track")


def sweep(seed=0):
    """
    Systematic models: for each class a full one, a minimal one, one per scalar
    field and edge value, one per child class, and each field alone missing.
    """
    rng = random.Random(f"sweep-{seed}")
    g = Gen(rng, max_depth=2)
    nested = set()
    for cls in ALL:
        spec = SPECS[cls]
        yield ("min", cls), g.node(cls, minimal=True)
        full = g.node(cls, full=True)
        yield ("full", cls), full
        for fld in spec.fields:
            if is_scalar(fld):
                for i, v in enumerate(pool(fld)):
                    base = g.node(cls, minimal=True)
                    base.put(fld.attr, v)
                    yield ("value", cls, fld.attr, i), base
            elif fld.kind in ("child", "children"):
                for c in fld.classes:
                    for variant in ("min", "full"):
                        base = g.node(cls, minimal=True)
                        if c == "Coordinates":
                            ch = Node("Coordinates", coords=g.coords(cls))
                        else:
                            ch = g.node(c, 1, full=variant == "full", minimal=variant == "min")
                        base.put(fld.attr, ch if fld.kind == "child" else [ch])
                        yield (fld.kind, cls, fld.attr, c, variant), base
                if fld.kind == "children":
                    # several kinds interleaved
                    base = g.node(cls, minimal=True)
                    seq = [g.node(c, 2, minimal=True) for c in (fld.classes * 2)]
                    base.put(fld.attr, seq)
                    yield ("mixed", cls, fld.attr), base
                for c in fld.classes:
                    if c in nested or c in ("Coordinates",):
                        continue
                    nested.add(c)
                    # the child's only content is one value, also a zero or false
                    for cf in SPECS[c].fields:
                        if not is_scalar(cf):
                            continue
                        vals = pool(cf)
                        pick = [v for v in vals if not v] + vals[:1] + vals[-1:]
                        for i, v in enumerate(x for k, x in enumerate(pick) if x not in pick[:k]):
                            for bare in (True, False):
                                ch = Node(c) if bare else g.node(c, 2, minimal=True)
                                ch.put(cf.attr, v)
                                if bare and c == "Schema":  # cannot be made without an id
                                    continue
                                base = g.node(cls, minimal=True)
                                base.put(fld.attr, ch if fld.kind == "child" else [ch])
                                yield ("nested", cls, fld.attr, c, cf.attr, i, int(bare)), base
            if fld.attr not in spec.mandatory:
                part = full.copy()
                if fld.attr in part.f:
                    part.put(fld.attr, None)
                    yield ("without", cls, fld.attr), part


__all__ = ["Gen", "pool", "sweep", "gen_dt", "FEATURES", "is_scalar"]
