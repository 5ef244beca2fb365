"""Bring a model into the content the KML 2.2 schema allows (limits of list content, value ranges), leaving the order of properties to the code."""

from .spec import SPECS, Node

STYLE_ORDER = ("IconStyle", "LabelStyle", "LineStyle", "PolyStyle", "BalloonStyle")


def conform(n: Node, rng, ids=None, top=True):
    ids = ids if ids is not None else set()
    for fld in SPECS[n.cls].fields:
        v = n.get(fld.attr)
        if v is None:
            continue
        if isinstance(v, Node):
            conform(v, rng, ids, False)
        elif isinstance(v, list) and v and isinstance(v[0], Node):
            for x in v:
                conform(x, rng, ids, False)
    # ids are unique names
    for a in ("id", "target_id"):
        if a in SPECS[n.cls].by_attr and n.get(a) is not None:
            base = f"i{len(ids)}"
            ids.add(base)
            n.f[a] = base
    c = n.cls
    if c == "KML":
        feats = n.get("features", [])
        ctl = [x for x in feats if x.cls == "NetworkLinkControl"][:1]
        rest = [x for x in feats if x.cls != "NetworkLinkControl"][:1]
        n.put("features", ctl + rest)
    elif c == "Style":
        kids = n.get("styles", [])
        n.put("styles", [next(x for x in kids if x.cls == k) for k in STYLE_ORDER if any(x.cls == k for x in kids)])
    elif c == "ExtendedData":
        n.put("elements", sorted(n.get("elements", []), key=lambda x: x.cls != "Data"))
    elif c == "IconStyle":
        if n.get("icon") is not None:
            n.f["icon"] = Node("Icon", href=n.f["icon"].get("href"), id=n.f["icon"].get("id"))
    elif c == "AtomLink":
        if n.get("type") is not None:
            n.f["type"] = rng.choice(("text/html", "application/vnd.google-earth.kml+xml"))
        if n.get("length") is not None:
            n.f["length"] = abs(n.f["length"])
    elif c == "Pair" and False:
        pass
    return n
