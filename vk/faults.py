"""Illegal values for typed KML content."""

from .spec import SPECS

BAD = {
    "float": ("abc", "1,5", "1.2.3", "--1", "1 2", "0x1F", "12px", "1e", "e5", "+-3", "1.0.", "½", "#", "true", "1;2", "12°", "..", "1e5.5", "50%s", "%d", "{0}"),
    "int": ("abc", "1.5", "1e3", "1 2", "0x10", "--1", "12px", "2.0", "#", "true", "1,000", "ten", "%d", "10%", "{}"),
    "bool": ("maybe", "yes", "no", "on", "t", "1 0", "truee", "#", "vrai", "-", "true1", "nein", "%s", "100%", "{0!r}"),
    "enum": ("bogus", "clampTo", "clampToGroundX", "on-change", "normal2", "0x", "#", "pixel", "red", "lower Left", "int32", "none of these", "%s", "50%(x)s", "{}", "$[x]"),
    "dt": ("not-a-date", "2020-13-01", "2020-02-30", "2021-02-29", "2020-00-10", "2020-01-32", "99999", "2020-01-01T25:00:00Z", "yesterday", "20-01-01",
           "2020-1", "0000", "2020-01-01T10:61:00Z", "#", "12:00", "%Y-%m-%d", "2020%", "{0}"),
    "coords": ("a,b", "1,b", "1,2 x,4", "1;2", "1,2 3,4;5", "1,2,", "1,,2", "nothing", "1,2 ,3", "0,0 1,1 1,0,0x", "1.2.3,4", "--1,2", "1,2 3,4 5,six",
               "1,1 2,2 3,3 4,4 5,x", "0,0 0,1 1,1 1,0 0,0 0,0,0,q", "x,1 1,1 2,2 3,3 4,4 5,5 6,6", "1,1,0 2,2,0 3,3,0 b 4,4,0 5,5,0 1,1,0", "1,1\n2,2\n3,3\n4,4\n5,5\n1;1",
               "1,%s", "%d,%d 1,1", "{0},{1}"),
}
# legal only in lenient mode: another letter case
def recased(text, rng):
    forms = {text.upper(), text.lower(), text.swapcase(), text.title()} - {text}
    return rng.choice(sorted(forms)) if forms else None


TYPED = ("float", "int", "bool", "enum", "dt", "coords")


def sites(node):
    """(object model, field) of all typed values that are set."""
    out = []
    for m in node.walk():
        for f in SPECS[m.cls].fields:
            k = f.kind.removeprefix("A_")
            if k in TYPED and m.get(f.attr) is not None:
                out.append((m, f, k))
    return out
