"""
Independent, hand-written description of the KML vocabulary fastkml offers.

Nothing here is read from the code under test: class -> tag, namespace, ordered
fields (Python attribute, XML name, kind, KML default) and the rule that says
which content an object must have to be written at all.  The oracles in the
other modules are derived from this table.
"""

import importlib
from dataclasses import dataclass, field as dfield
from typing import Any, Callable, Dict, List, Optional, Tuple

KMLURI = "http://www.opengis.net/kml/2.2"
GXURI = "http://www.google.com/kml/ext/2.2"
ATOMURI = "http://www.w3.org/2005/Atom"
URIS = {"kml": KMLURI, "gx": GXURI, "atom": ATOMURI, "": ""}

ENUMS: Dict[str, Tuple[str, ...]] = {
    "AltitudeMode": (
        "clampToGround",
        "relativeToGround",
        "absolute",
        "clampToSeaFloor",
        "relativeToSeaFloor",
    ),
    "DataType": ("string", "int", "uint", "short", "ushort", "float", "double", "bool"),
    "RefreshMode": ("onChange", "onInterval", "onExpire"),
    "ViewRefreshMode": ("never", "onStop", "onRequest", "onRegion"),
    "ColorMode": ("normal", "random"),
    "DisplayMode": ("default", "hide"),
    "Shape": ("rectangle", "cylinder", "sphere"),
    "GridOrigin": ("lowerLeft", "upperLeft"),
    "Units": ("fraction", "pixels", "insetPixels"),
    "PairKey": ("normal", "highlight"),
}
GX_ENUM_VALUES = {"clampToSeaFloor", "relativeToSeaFloor"}


@dataclass(frozen=True)
class Field:
    kind: str
    attr: str
    node: str = ""
    default: Any = None
    enum: str = ""
    classes: Tuple[str, ...] = ()
    role: str = ""  # lexical role used by the generators (color, uri, lat...)


@dataclass
class Spec:
    name: str
    path: str
    tag: str
    nsid: str
    fields: Tuple[Field, ...]
    truthy: Callable[["Node"], bool]
    mandatory: Tuple[str, ...] = ()  # fields the minimal written object needs
    by_attr: Dict[str, Field] = dfield(default_factory=dict)

    def __post_init__(self):
        self.by_attr = {f.attr: f for f in self.fields}

    @property
    def pycls(self):
        mod, _, name = self.path.partition(":")
        return getattr(importlib.import_module(mod), name)


class Node:
    """Abstract value of one KML object: class name and its set attributes."""

    __slots__ = ("cls", "f")

    def __init__(self, cls: str, **f: Any):
        self.cls = cls
        self.f = {k: v for k, v in f.items() if v is not None and v != []}

    def get(self, attr, default=None):
        return self.f.get(attr, default)

    def put(self, attr, value):
        if value is None or value == []:
            self.f.pop(attr, None)
        else:
            self.f[attr] = value
        return self

    def copy(self) -> "Node":
        n = Node(self.cls)
        for k, v in self.f.items():
            if isinstance(v, Node):
                n.f[k] = v.copy()
            elif isinstance(v, list):
                n.f[k] = [x.copy() if isinstance(x, Node) else x for x in v]
            else:
                n.f[k] = v
        return n

    def __eq__(self, other):
        return isinstance(other, Node) and self.cls == other.cls and self.f == other.f

    __hash__ = None

    def __repr__(self):
        inner = ", ".join(f"{k}={v!r}" for k, v in self.f.items())
        return f"{self.cls}({inner})"

    def walk(self):
        yield self
        for v in self.f.values():
            if isinstance(v, Node):
                yield from v.walk()
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, Node):
                        yield from x.walk()


SPECS: Dict[str, Spec] = {}


def truthy(n: Optional[Node]) -> bool:
    return n is not None and SPECS[n.cls].truthy(n)


def S(name, path, fields, truth=None, *, tag=None, nsid="kml", mandatory=()):
    SPECS[name] = Spec(
        name=name,
        path=path,
        tag=tag or name,
        nsid=nsid,
        fields=tuple(fields),
        truthy=truth or (lambda n: True),
        mandatory=tuple(mandatory),
    )


def A(kind, attr, node, default=None, enum="", role=""):  # XML attribute
    return Field("A_" + kind, attr, node, default, enum, role=role)


def E(kind, attr, node, default=None, enum="", role=""):  # simple sub element
    return Field(kind, attr, node, default, enum, role=role)


def C(attr, *classes):
    return Field("child", attr, classes=classes)


def L(attr, *classes):
    return Field("children", attr, classes=classes)


def has_all(*names):
    return lambda n: all(n.get(x) is not None for x in names)


def has_any(*names):
    return lambda n: any(n.get(x) is not None for x in names)


OBJ = (A("text", "id", "id", role="id"), A("text", "target_id", "targetId", role="id"))
ALT = E("enum", "altitude_mode", "altitudeMode", "clampToGround", "AltitudeMode")
EXTRUDE = E("bool", "extrude", "extrude", False)
TESS = E("bool", "tessellate", "tessellate", False)

# ---------------------------------------------------------------- geometry
S("Coordinates", "fastkml.geometry:Coordinates", [Field("coords", "coords", "coordinates")],
  lambda n: bool(n.get("coords")), tag="coordinates", mandatory=("coords",))
S("Point", "fastkml.geometry:Point",
  [*OBJ, EXTRUDE, ALT, C("kml_coordinates", "Coordinates")],
  lambda n: truthy(n.get("kml_coordinates")), mandatory=("kml_coordinates",))
for _n in ("LineString", "LinearRing"):
    S(_n, f"fastkml.geometry:{_n}",
      [*OBJ, EXTRUDE, TESS, ALT, C("kml_coordinates", "Coordinates")],
      lambda n: truthy(n.get("kml_coordinates")), mandatory=("kml_coordinates",))
for _n, _t in (("OuterBoundaryIs", "outerBoundaryIs"), ("InnerBoundaryIs", "innerBoundaryIs")):
    S(_n, f"fastkml.geometry:{_n}", [C("kml_geometry", "LinearRing")],
      lambda n: truthy(n.get("kml_geometry")), tag=_t, mandatory=("kml_geometry",))
S("Polygon", "fastkml.geometry:Polygon",
  [*OBJ, EXTRUDE, TESS, ALT, C("outer_boundary", "OuterBoundaryIs"),
   L("inner_boundaries", "InnerBoundaryIs")],
  lambda n: truthy(n.get("outer_boundary")), mandatory=("outer_boundary",))
S("MultiGeometry", "fastkml.geometry:MultiGeometry",
  [*OBJ, L("kml_geometries", "Point", "LineString", "Polygon", "LinearRing", "MultiGeometry")],
  lambda n: any(truthy(g) for g in n.get("kml_geometries", [])),
  mandatory=("kml_geometries",))

# ---------------------------------------------------------------- gx
S("Track", "fastkml.gx:Track",
  [*OBJ, ALT, Field("track", "track_items"), C("extended_data", "ExtendedData")],
  lambda n: bool(n.get("track_items")), nsid="gx", mandatory=("track_items",))
S("MultiTrack", "fastkml.gx:MultiTrack",
  [*OBJ, ALT, E("bool", "interpolate", "interpolate"), L("tracks", "Track")],
  lambda n: bool(n.get("tracks")), nsid="gx", mandatory=("tracks",))

# ---------------------------------------------------------------- times
S("TimeStamp", "fastkml.times:TimeStamp", [*OBJ, E("dt", "timestamp", "when")],
  has_all("timestamp"), mandatory=("timestamp",))
S("TimeSpan", "fastkml.times:TimeSpan",
  [*OBJ, E("dt", "begin", "begin"), E("dt", "end", "end")],
  has_any("begin", "end"), mandatory=("begin",))

# ---------------------------------------------------------------- atom, links
S("AtomLink", "fastkml.atom:Link",
  [A("text", "href", "href", role="uri"), A("text", "rel", "rel"), A("text", "type", "type"),
   A("text", "hreflang", "hreflang", role="lang"), A("text", "title", "title"),
   A("int", "length", "length")],
  has_all("href"), tag="link", nsid="atom", mandatory=("href",))
for _n, _t in (("Author", "author"), ("Contributor", "contributor")):
    S(_n, f"fastkml.atom:{_n}",
      [E("text", "name", "name"), E("text", "uri", "uri", role="uri"),
       E("text", "email", "email", role="email")],
      has_all("name"), tag=_t, nsid="atom", mandatory=("name",))
for _n in ("Link", "Icon"):
    S(_n, f"fastkml.links:{_n}",
      [*OBJ, E("text", "href", "href", role="uri"),
       E("enum", "refresh_mode", "refreshMode", "onChange", "RefreshMode"),
       E("float", "refresh_interval", "refreshInterval", 4.0),
       E("enum", "view_refresh_mode", "viewRefreshMode", "never", "ViewRefreshMode"),
       E("float", "view_refresh_time", "viewRefreshTime", 4.0),
       E("float", "view_bound_scale", "viewBoundScale", 1.0),
       E("text", "view_format", "viewFormat",
         "BBOX=[bboxWest],[bboxSouth],[bboxEast],[bboxNorth]"),
       E("text", "http_query", "httpQuery")],
      has_all("href"), mandatory=("href",))

# ---------------------------------------------------------------- model
S("Location", "fastkml.model:Location",
  [E("float", "longitude", "longitude", role="angle180"),
   E("float", "latitude", "latitude", role="angle90"),
   E("float", "altitude", "altitude", 0.0)],
  has_all("longitude", "latitude"), mandatory=("longitude", "latitude"))
S("Orientation", "fastkml.model:Orientation",
  [E("float", "heading", "heading", 0.0, role="angle360"), E("float", "tilt", "tilt", 0.0, role="anglepos180"),
   E("float", "roll", "roll", 0.0, role="angle180")], has_any("heading", "tilt", "roll"),
  mandatory=("heading",))
S("Scale", "fastkml.model:Scale",
  [E("float", "x", "x", 1.0), E("float", "y", "y", 1.0), E("float", "z", "z", 1.0)],
  has_any("x", "y", "z"), mandatory=("x",))
S("Alias", "fastkml.model:Alias",
  [E("text", "target_href", "targetHref", role="uri"), E("text", "source_href", "sourceHref", role="uri")],
  has_any("target_href", "source_href"), mandatory=("target_href",))
S("ResourceMap", "fastkml.model:ResourceMap", [L("aliases", "Alias")],
  has_all("aliases"), mandatory=("aliases",))
S("Model", "fastkml.model:Model",
  [*OBJ, ALT, C("location", "Location"), C("orientation", "Orientation"), C("scale", "Scale"),
   C("link", "Link"), C("resource_map", "ResourceMap")],
  lambda n: truthy(n.get("link")) and truthy(n.get("location")), mandatory=("location", "link"))

# ---------------------------------------------------------------- styles
S("StyleUrl", "fastkml.styles:StyleUrl", [Field("ntext", "url", role="uri")], has_all("url"),
  tag="styleUrl", mandatory=("url",))
COLOR = (E("text", "color", "color", "ffffffff", role="color"),
         E("enum", "color_mode", "colorMode", "normal", "ColorMode"))
S("HotSpot", "fastkml.styles:HotSpot",
  [A("float", "x", "x", 1.0), A("float", "y", "y", 1.0),
   A("enum", "xunits", "xunits", "fraction", "Units"),
   A("enum", "yunits", "yunits", "fraction", "Units")], tag="hotSpot")
S("IconStyle", "fastkml.styles:IconStyle",
  [*OBJ, *COLOR, E("float", "scale", "scale", 1.0, role="pos"),
   E("float", "heading", "heading", 0.0, role="angle360"),
   C("icon", "Icon"), C("hot_spot", "HotSpot")],
  lambda n: truthy(n.get("icon"))
  or any(n.get(x) is not None for x in ("color", "color_mode", "scale", "heading", "hot_spot")),
  mandatory=("icon",))
S("LineStyle", "fastkml.styles:LineStyle",
  [*OBJ, *COLOR, E("float", "width", "width", 1.0, role="pos")],
  has_any("width", "color", "color_mode"), mandatory=("width",))
S("PolyStyle", "fastkml.styles:PolyStyle",
  [*OBJ, *COLOR, E("bool", "fill", "fill", True), E("bool", "outline", "outline", True)],
  has_any("fill", "outline", "color", "color_mode"), mandatory=("fill",))
S("LabelStyle", "fastkml.styles:LabelStyle",
  [*OBJ, *COLOR, E("float", "scale", "scale", 1.0, role="pos")],
  has_any("scale", "color", "color_mode"), mandatory=("scale",))
S("BalloonStyle", "fastkml.styles:BalloonStyle",
  [*OBJ, E("text", "bg_color", "bgColor", "ffffffff", role="color"),
   E("text", "text_color", "textColor", "ff000000", role="color"), E("text", "text", "text"),
   E("enum", "display_mode", "displayMode", "default", "DisplayMode")],
  has_any("bg_color", "text_color", "text", "display_mode"), mandatory=("text",))
S("Style", "fastkml.styles:Style",
  [*OBJ, L("styles", "IconStyle", "LabelStyle", "LineStyle", "PolyStyle", "BalloonStyle")],
  lambda n: any(truthy(x) for x in n.get("styles", [])), mandatory=("styles",))
S("Pair", "fastkml.styles:Pair",
  [*OBJ, E("enum", "key", "key", enum="PairKey"), C("style", "StyleUrl", "Style")],
  has_all("key", "style"), mandatory=("key", "style"))
S("StyleMap", "fastkml.styles:StyleMap", [*OBJ, L("pairs", "Pair")], has_all("pairs"),
  mandatory=("pairs",))

# ---------------------------------------------------------------- views
VIEW = (E("float", "longitude", "longitude", 0.0, role="angle180"),
        E("float", "latitude", "latitude", 0.0, role="angle90"),
        E("float", "altitude", "altitude", 0.0),
        E("float", "heading", "heading", 0.0, role="angle360"),
        E("float", "tilt", "tilt", 0.0, role="anglepos90"))
S("Camera", "fastkml.views:Camera",
  [*OBJ, *VIEW, E("float", "roll", "roll", 0.0, role="angle180"), ALT])
S("LookAt", "fastkml.views:LookAt", [*OBJ, *VIEW, E("float", "range", "range"), ALT])
S("LatLonAltBox", "fastkml.views:LatLonAltBox",
  [E("float", "north", "north", role="angle180"), E("float", "south", "south", role="angle180"),
   E("float", "east", "east", role="angle180"), E("float", "west", "west", role="angle180"),
   E("float", "min_altitude", "minAltitude", 0.0), E("float", "max_altitude", "maxAltitude", 0.0), ALT],
  has_all("north", "south", "east", "west"), mandatory=("north", "south", "east", "west"))
S("Lod", "fastkml.views:Lod",
  [E("int", "min_lod_pixels", "minLodPixels", 0), E("int", "max_lod_pixels", "maxLodPixels", -1),
   E("int", "min_fade_extent", "minFadeExtent", 0), E("int", "max_fade_extent", "maxFadeExtent", 0)],
  has_any("min_lod_pixels", "max_lod_pixels", "min_fade_extent", "max_fade_extent"),
  mandatory=("min_lod_pixels",))
S("Region", "fastkml.views:Region",
  [*OBJ, C("lat_lon_alt_box", "LatLonAltBox"), C("lod", "Lod")],
  lambda n: truthy(n.get("lat_lon_alt_box")), mandatory=("lat_lon_alt_box",))

# ---------------------------------------------------------------- data
S("SimpleField", "fastkml.data:SimpleField",
  [E("text", "display_name", "displayName"), A("text", "name", "name"),
   A("enum", "type_", "type", enum="DataType")], has_all("name", "type_"),
  mandatory=("name", "type_"))
S("Schema", "fastkml.data:Schema",
  [A("text", "id", "id", role="ncname"), A("text", "name", "name"), L("fields", "SimpleField")],
  mandatory=("id",))
S("Data", "fastkml.data:Data",
  [*OBJ, E("text", "display_name", "displayName"), E("text", "value", "value"),
   A("text", "name", "name")], has_all("name", "value"), mandatory=("name", "value"))
S("SimpleData", "fastkml.data:SimpleData",
  [Field("ntext", "value"), A("text", "name", "name")], has_all("name", "value"),
  mandatory=("name", "value"))
S("SchemaData", "fastkml.data:SchemaData",
  [*OBJ, A("text", "schema_url", "schemaUrl", role="uri"), L("data", "SimpleData")],
  has_all("schema_url", "data"), mandatory=("schema_url", "data"))
S("ExtendedData", "fastkml.data:ExtendedData", [L("elements", "Data", "SchemaData")],
  has_all("elements"), mandatory=("elements",))

# ---------------------------------------------------------------- features
S("Snippet", "fastkml.features:Snippet",
  [Field("ntext", "text"), A("int", "max_lines", "maxLines", 2)], has_all("text"),
  mandatory=("text",))
FEATURE = (
    *OBJ,
    E("text", "name", "name"),
    E("bool", "visibility", "visibility", True),
    E("bool", "isopen", "open", False),
    C("atom_author", "Author"),
    C("atom_link", "AtomLink"),
    E("text", "address", "address"),
    E("text", "phone_number", "phoneNumber"),
    C("snippet", "Snippet"),
    E("text", "description", "description"),
    C("view", "Camera", "LookAt"),
    C("times", "TimeSpan", "TimeStamp"),
    C("style_url", "StyleUrl"),
    L("styles", "Style", "StyleMap"),
    C("region", "Region"),
    C("extended_data", "ExtendedData"),
)
GEOMETRIES = ("Point", "LineString", "LinearRing", "Polygon", "MultiGeometry", "Model",
              "MultiTrack", "Track")
S("Placemark", "fastkml.features:Placemark", [*FEATURE, C("kml_geometry", *GEOMETRIES)])
S("NetworkLink", "fastkml.features:NetworkLink",
  [*FEATURE, E("bool", "refresh_visibility", "refreshVisibility", False),
   E("bool", "fly_to_view", "flyToView", False), C("link", "Link")],
  lambda n: truthy(n.get("link")), mandatory=("link",))
CONTAINED = ("Document", "Folder", "Placemark", "GroundOverlay", "PhotoOverlay",
             "ScreenOverlay", "NetworkLink")
S("Folder", "fastkml.containers:Folder", [*FEATURE, L("features", *CONTAINED)])
S("Document", "fastkml.containers:Document",
  [*FEATURE, L("features", *CONTAINED), L("schemata", "Schema")])

# ---------------------------------------------------------------- overlays
OVERLAY = (*FEATURE, E("text", "color", "color", "ffffffff", role="color"),
           E("int", "draw_order", "drawOrder", 0), C("icon", "Icon"))
S("ViewVolume", "fastkml.overlays:ViewVolume",
  [E("float", "left_fov", "leftFov", 0.0, role="angle180"), E("float", "right_fov", "rightFov", 0.0, role="angle180"),
   E("float", "bottom_fov", "bottomFov", 0.0, role="angle90"), E("float", "top_fov", "topFov", 0.0, role="angle90"),
   E("float", "near", "near", 0.0)],
  has_any("left_fov", "right_fov", "bottom_fov", "top_fov", "near"), mandatory=("near",))
S("ImagePyramid", "fastkml.overlays:ImagePyramid",
  [E("int", "tile_size", "tileSize", 256), E("int", "max_width", "maxWidth"),
   E("int", "max_height", "maxHeight"),
   E("enum", "grid_origin", "gridOrigin", "lowerLeft", "GridOrigin")],
  has_all("max_width", "max_height"), mandatory=("max_width", "max_height"))
S("PhotoOverlay", "fastkml.overlays:PhotoOverlay",
  [*OVERLAY, E("float", "rotation", "rotation", 0.0, role="angle180"), C("view_volume", "ViewVolume"),
   C("image_pyramid", "ImagePyramid"), C("point", "Point"),
   E("enum", "shape", "shape", "rectangle", "Shape")])
S("LatLonBox", "fastkml.overlays:LatLonBox",
  [E("float", "north", "north", role="angle180"), E("float", "south", "south", role="angle180"),
   E("float", "east", "east", role="angle180"), E("float", "west", "west", role="angle180"),
   E("float", "rotation", "rotation", 0.0, role="angle180")],
  has_all("north", "south", "east", "west"), mandatory=("north", "south", "east", "west"))
S("GroundOverlay", "fastkml.overlays:GroundOverlay",
  [*OVERLAY, E("float", "altitude", "altitude", 0.0), ALT, C("lat_lon_box", "LatLonBox")])
XY = (A("float", "x", "x"), A("float", "y", "y"),
      A("enum", "x_units", "xunits", "fraction", "Units"),
      A("enum", "y_units", "yunits", "fraction", "Units"))
for _n, _t in (("OverlayXY", "overlayXY"), ("ScreenXY", "screenXY"),
               ("RotationXY", "rotationXY"), ("Size", "size")):
    S(_n, f"fastkml.overlays:{_n}", XY, has_all("x", "y"), tag=_t, mandatory=("x", "y"))
S("ScreenOverlay", "fastkml.overlays:ScreenOverlay",
  [*OVERLAY, C("overlay_xy", "OverlayXY"), C("screen_xy", "ScreenXY"),
   C("rotation_xy", "RotationXY"), C("size", "Size"),
   E("float", "rotation", "rotation", 0.0, role="angle180")])

# ---------------------------------------------------------------- control, root
S("NetworkLinkControl", "fastkml.network_link_control:NetworkLinkControl",
  [E("float", "min_refresh_period", "minRefreshPeriod", 0.0),
   E("float", "max_session_length", "maxSessionLength", -1.0),
   E("text", "cookie", "cookie"), E("text", "message", "message"),
   E("text", "link_name", "linkName"), E("text", "link_description", "linkDescription"),
   E("text", "link_snippet", "linkSnippet"), E("dt", "expires", "expires"),
   C("view", "Camera", "LookAt")])
ROOTED = ("Document", "Folder", "Placemark", "GroundOverlay", "PhotoOverlay", "ScreenOverlay",
          "NetworkLink", "NetworkLinkControl")
S("KML", "fastkml.kml:KML", [L("features", *ROOTED)], tag="kml")

FEATURES = ("Document", "Folder", "Placemark", "GroundOverlay", "PhotoOverlay", "ScreenOverlay",
            "NetworkLink")
CONTAINERS = ("Document", "Folder")
ALL = tuple(SPECS)


def enum_cls(name: str):
    return getattr(importlib.import_module("fastkml.enums"), name)


def qn(uri: str, tag: str) -> str:
    return f"{{{uri}}}{tag}" if uri else tag
