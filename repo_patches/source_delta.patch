From c4749870eb0c9b1f01675590bcd8c05c3762df17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:06 +0000
Subject: [PATCH 01/36] fix: compare altitude_mode of LineString, LinearRing
 and Polygon

Two geometries that only differed in their altitude mode were equal.
---
 fastkml/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index bb14f78..907e8f0 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -639,6 +639,7 @@ class LineString(_Geometry):
                 for attr in (
                     "extrude",
                     "tessellate",
+                    "altitude_mode",
                     "geometry",
                     *xml_attrs,
                     *self._get_splat(),
@@ -1123,6 +1124,7 @@ class Polygon(_Geometry):
                 for attr in (
                     "extrude",
                     "tessellate",
+                    "altitude_mode",
                     "geometry",
                     *xml_attrs,
                     *self._get_splat(),
-- 
2.43.0


From f5b144486a0c81af7202933fd053055bc95b12f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:06 +0000
Subject: [PATCH 02/36] fix: read a ScreenOverlay that is a direct child of kml

KML.parse and KML.from_string silently dropped it.
---
 fastkml/kml.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index aee6f9c..32bff0c 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -54,6 +54,7 @@ from fastkml.helpers import xml_subelement_list_kwarg
 from fastkml.network_link_control import NetworkLinkControl
 from fastkml.overlays import GroundOverlay
 from fastkml.overlays import PhotoOverlay
+from fastkml.overlays import ScreenOverlay
 from fastkml.registry import RegistryItem
 from fastkml.registry import registry
 from fastkml.types import Element
@@ -300,12 +301,13 @@ registry.register(
             Placemark,
             GroundOverlay,
             PhotoOverlay,
+            ScreenOverlay,
             NetworkLink,
             NetworkLinkControl,
         ),
         node_name=(
-            "Document,Folder,Placemark,GroundOverlay,PhotoOverlay,NetworkLink,"
-            "NetworkLinkControl"
+            "Document,Folder,Placemark,GroundOverlay,PhotoOverlay,ScreenOverlay,"
+            "NetworkLink,NetworkLinkControl"
         ),
         attr_name="features",
         get_kwarg=xml_subelement_list_kwarg,
-- 
2.43.0


From 8c26231e928493dbc9db6d2621a2205646b42b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:06 +0000
Subject: [PATCH 03/36] fix: do not modify the name_spaces dict passed to
 KML.parse

---
 fastkml/kml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index 32bff0c..49bd1d0 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -238,7 +238,7 @@ class KML(_XMLObject):
             root = config.etree.parse(file).getroot()
         if ns is None:
             ns = root.tag[:-3] if root.tag.endswith("kml") else ""
-        name_spaces = name_spaces or {}
+        name_spaces = dict(name_spaces or {})
         if ns:
             name_spaces["kml"] = ns
         name_spaces = {**config.NAME_SPACES, **name_spaces}
-- 
2.43.0


From 0ca16dfec8b4f9461148076b2e00a7d57ba84fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:44 +0000
Subject: [PATCH 04/36] fix: report invalid integer attributes as KMLParseError

A malformed maxLines or length attribute raised a bare ValueError, even
when strict was False.
---
 fastkml/helpers.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/fastkml/helpers.py b/fastkml/helpers.py
index 2201029..9eaff48 100644
--- a/fastkml/helpers.py
+++ b/fastkml/helpers.py
@@ -876,7 +876,7 @@ def attribute_int_kwarg(
         node_name (str): The name of the XML node containing the attribute.
         kwarg (str): The name of the keyword argument to store the extracted attribute.
         classes (Tuple[Type[object], ...]): A tuple of known types (unused).
-        strict (bool): A flag indicating whether to raise an exception (unused).
+        strict (bool): A flag indicating whether to raise an exception.
 
     Returns:
     -------
@@ -884,7 +884,17 @@ def attribute_int_kwarg(
 
     """
     attr = element.get(f"{ns}{node_name}")
-    return {kwarg: int(attr)} if attr else {}
+    try:
+        return {kwarg: int(attr)} if attr else {}
+    except ValueError as exc:
+        handle_error(
+            error=exc,
+            strict=strict,
+            element=element,
+            node=element,
+            expected="Integer",
+        )
+    return {}
 
 
 def subelement_float_kwarg(
-- 
2.43.0


From 2acbb8af8c0bc04f0c7a913f464e2da788e8fcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:44 +0000
Subject: [PATCH 05/36] fix: KML.write accepts the file name as a string

The documentation uses k.write("test.kml"), which raised AttributeError.
---
 fastkml/kml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index 49bd1d0..b02eef8 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -251,7 +251,7 @@ class KML(_XMLObject):
 
     def write(
         self,
-        file_path: Path,
+        file_path: Union[Path, str],
         *,
         prettyprint: bool = True,
         precision: Optional[int] = None,
@@ -269,6 +269,7 @@ class KML(_XMLObject):
             verbosity (Verbosity): The verbosity level for generating the KML element.
 
         """
+        file_path = Path(file_path)
         element = self.etree_element(precision=precision, verbosity=verbosity)
 
         try:
-- 
2.43.0


From 0890d3db98d431305fb4b323e4d2c1e3b5f4441c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:44 +0000
Subject: [PATCH 06/36] fix: write years before 1000 with four digits

strftime('%Y') does not pad the year, so gYear and gYearMonth values before
the year 1000 could not be read back.
---
 fastkml/times.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastkml/times.py b/fastkml/times.py
index 8f7a451..4ae03f2 100644
--- a/fastkml/times.py
+++ b/fastkml/times.py
@@ -183,9 +183,9 @@ class KmlDateTime:
     def __str__(self) -> str:
         """Return the KML DateTime string representation of the object."""
         if self.resolution == DateTimeResolution.year:
-            return self.dt.strftime("%Y")
+            return f"{self.dt.year:04d}"
         if self.resolution == DateTimeResolution.year_month:
-            return self.dt.strftime("%Y-%m")
+            return f"{self.dt.year:04d}-{self.dt.month:02d}"
         if self.resolution == DateTimeResolution.date:
             return (
                 self.dt.date().isoformat()
-- 
2.43.0


From bce2d60c33abf3e6b394e232bc7ba70787fd45fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:44 +0000
Subject: [PATCH 07/36] fix: a date beyond the supported range is a ValueError

9999-12-31T24:00:00 raised OverflowError, which parsing did not turn into a
KMLParseError and which escaped with strict=False too.
---
 fastkml/times.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fastkml/times.py b/fastkml/times.py
index 4ae03f2..85668b8 100644
--- a/fastkml/times.py
+++ b/fastkml/times.py
@@ -210,7 +210,10 @@ class KmlDateTime:
             if year_month_day_match.group("month") is None:
                 resolution = DateTimeResolution.year
             return cls(dt, resolution)
-        return cls(arrow.get(datestr).datetime, DateTimeResolution.datetime)
+        try:
+            return cls(arrow.get(datestr).datetime, DateTimeResolution.datetime)
+        except OverflowError as exc:
+            raise ValueError(str(exc)) from exc
 
     @classmethod
     def get_ns_id(cls) -> str:
-- 
2.43.0


From d2cc5a673786a884f431d402d00d8807b57068ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:44 +0000
Subject: [PATCH 08/36] fix: a style url without a fragment does not name a
 style

get_style_by_url returned the first style that has no id.
---
 fastkml/containers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fastkml/containers.py b/fastkml/containers.py
index 1a3e773..d5ee8a2 100644
--- a/fastkml/containers.py
+++ b/fastkml/containers.py
@@ -316,6 +316,8 @@ class Document(_Container):
 
         """
         id_ = urlparse.urlparse(style_url).fragment
+        if not id_:
+            return None
         return next(
             find_all(  # type: ignore[arg-type]
                 self,
-- 
2.43.0


From b6b1148405fb45d23e9b027325b1db6b33c05322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:06 +0000
Subject: [PATCH 09/36] fix: create coordinates and boundaries in the namespace
 of the geometry

A geometry built from a pygeoif object in another KML namespace wrote its
coordinates in the default namespace, and they were lost on reading.
---
 fastkml/geometry.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index 907e8f0..1db639e 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -414,10 +414,10 @@ class Point(_Geometry):
         if geometry is not None and kml_coordinates is not None:
             raise GeometryError(MsgMutualExclusive)
         if kml_coordinates is None and geometry:
-            kml_coordinates = (
-                Coordinates(coords=geometry.coords)  # type: ignore[arg-type]
-                if geometry
-                else None
+            kml_coordinates = Coordinates(
+                ns=ns,
+                name_spaces=name_spaces,
+                coords=geometry.coords,  # type: ignore[arg-type]
             )
         self.kml_coordinates = kml_coordinates
         self.extrude = extrude
@@ -591,7 +591,11 @@ class LineString(_Geometry):
         if geometry is not None and kml_coordinates is not None:
             raise GeometryError(MsgMutualExclusive)
         if kml_coordinates is None:
-            kml_coordinates = Coordinates(coords=geometry.coords) if geometry else None
+            kml_coordinates = (
+                Coordinates(ns=ns, name_spaces=name_spaces, coords=geometry.coords)
+                if geometry
+                else None
+            )
         self.kml_coordinates = kml_coordinates
         self.extrude = extrude
         self.tessellate = tessellate
@@ -1037,9 +1041,14 @@ class Polygon(_Geometry):
         if outer_boundary is not None and geometry is not None:
             raise GeometryError(MsgMutualExclusive)
         if geometry is not None:
-            outer_boundary = OuterBoundaryIs(geometry=geometry.exterior)
+            outer_boundary = OuterBoundaryIs(
+                ns=ns,
+                name_spaces=name_spaces,
+                geometry=geometry.exterior,
+            )
             inner_boundaries = [
-                InnerBoundaryIs(geometry=interior) for interior in geometry.interiors
+                InnerBoundaryIs(ns=ns, name_spaces=name_spaces, geometry=interior)
+                for interior in geometry.interiors
             ]
         self.outer_boundary = outer_boundary
         self.inner_boundaries = list(inner_boundaries) if inner_boundaries else []
-- 
2.43.0


From b6adba1b826ca8fac7831e6b366d2cb207b65d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:06 +0000
Subject: [PATCH 10/36] fix: read lists of children that have no namespace

A list of sub elements was looked up in the kml namespace only: an empty
result stopped the search before elements without a namespace were tried.
---
 fastkml/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/helpers.py b/fastkml/helpers.py
index 9eaff48..4746a74 100644
--- a/fastkml/helpers.py
+++ b/fastkml/helpers.py
@@ -1300,4 +1300,4 @@ def xml_subelement_list_kwarg(
                     for subelement in subelements
                 ],
             )
-    return {kwarg: args_list}
+    return {kwarg: args_list} if args_list else {}
-- 
2.43.0


From b8b585d32a4159564b9c70f11cba52ee6d283acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:01 +0000
Subject: [PATCH 11/36] fix: write an IconStyle that has no icon

The scale, heading, color and hotSpot of an IconStyle without an icon were
lost, because the IconStyle was considered to be empty.
---
 fastkml/styles.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/fastkml/styles.py b/fastkml/styles.py
index b5b9292..82d6586 100644
--- a/fastkml/styles.py
+++ b/fastkml/styles.py
@@ -507,15 +507,24 @@ class IconStyle(_ColorStyle):
 
     def __bool__(self) -> bool:
         """
-        Check if the Style has an icon.
+        Check if the Style has an icon or any other content.
 
         Returns
         -------
         bool
-            True if the Style has an icon, False otherwise.
+            True if the Style has any content, False otherwise.
 
         """
-        return bool(self.icon)
+        return bool(self.icon) or any(
+            value is not None
+            for value in (
+                self.scale,
+                self.heading,
+                self.hot_spot,
+                self.color,
+                self.color_mode,
+            )
+        )
 
     @property
     def icon_href(self) -> Optional[str]:
-- 
2.43.0


From 70d71e0ace5a863bcf60f15385bb432dfc77c834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:34 +0000
Subject: [PATCH 12/36] fix: keep a Lod or ViewVolume in which some values are
 left at their default

Both were dropped when written after a terse document, in which values that
equal their default are omitted, was read.
---
 fastkml/overlays.py |  6 +++---
 fastkml/views.py    | 12 ++++++++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/fastkml/overlays.py b/fastkml/overlays.py
index 48bfcdd..afdd379 100644
--- a/fastkml/overlays.py
+++ b/fastkml/overlays.py
@@ -359,14 +359,14 @@ class ViewVolume(_XMLObject):
 
     def __bool__(self) -> bool:
         """
-        Check if all the required attributes are not None.
+        Check if any of the attributes is not None.
 
         Returns
         -------
-            bool: True if all the required attributes are not None, False otherwise.
+            bool: True if any of the attributes is not None, False otherwise.
 
         """
-        return all(
+        return any(
             [
                 self.left_fov is not None,
                 self.right_fov is not None,
diff --git a/fastkml/views.py b/fastkml/views.py
index 57b3048..f93bd09 100644
--- a/fastkml/views.py
+++ b/fastkml/views.py
@@ -707,10 +707,18 @@ class Lod(_XMLObject):
 
         Returns
         -------
-            bool: True if the `min_lod_pixels` attribute is not None, False otherwise.
+            bool: True if any of the attributes is not None, False otherwise.
 
         """
-        return self.min_lod_pixels is not None
+        return any(
+            value is not None
+            for value in (
+                self.min_lod_pixels,
+                self.max_lod_pixels,
+                self.min_fade_extent,
+                self.max_fade_extent,
+            )
+        )
 
 
 registry.register(
-- 
2.43.0


From 5b33b7d1c5969dc98aefe0bac85ec1d5e37e1760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:34 +0000
Subject: [PATCH 13/36] fix: use the defaults of the KML schema for
 minLodPixels and hotSpot

minLodPixels defaults to 0 and the x and y of a hotSpot to 1.0. With the
wrong defaults a terse document had another meaning than the object.
---
 fastkml/styles.py | 4 ++--
 fastkml/views.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/fastkml/styles.py b/fastkml/styles.py
index 82d6586..8c7ea8a 100644
--- a/fastkml/styles.py
+++ b/fastkml/styles.py
@@ -364,7 +364,7 @@ registry.register(
         classes=(float,),
         get_kwarg=attribute_float_kwarg,
         set_element=float_attribute,
-        default=0.5,
+        default=1.0,
     ),
 )
 registry.register(
@@ -376,7 +376,7 @@ registry.register(
         classes=(float,),
         get_kwarg=attribute_float_kwarg,
         set_element=float_attribute,
-        default=0.5,
+        default=1.0,
     ),
 )
 registry.register(
diff --git a/fastkml/views.py b/fastkml/views.py
index f93bd09..6d74d73 100644
--- a/fastkml/views.py
+++ b/fastkml/views.py
@@ -730,7 +730,7 @@ registry.register(
         classes=(float,),
         get_kwarg=subelement_int_kwarg,
         set_element=int_subelement,
-        default=256,
+        default=0,
     ),
 )
 registry.register(
-- 
2.43.0


From aedc093174e6a3d092427ed3324d70560d8bcb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:34 +0000
Subject: [PATCH 14/36] fix: overlays accept the keyword arguments of
 registered extensions

An attribute registered for an overlay, or for any of its base classes, made
reading an overlay fail with a TypeError.
---
 fastkml/overlays.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fastkml/overlays.py b/fastkml/overlays.py
index afdd379..d5fce65 100644
--- a/fastkml/overlays.py
+++ b/fastkml/overlays.py
@@ -144,6 +144,7 @@ class _Overlay(_Feature):
         color: Optional[str] = None,
         draw_order: Optional[int] = None,
         icon: Optional[Icon] = None,
+        **kwargs: Any,
     ) -> None:
         """
         Initialize an Overlay object.
@@ -220,6 +221,7 @@ class _Overlay(_Feature):
             styles=styles,
             region=region,
             extended_data=extended_data,
+            **kwargs,
         )
         self.icon = icon
         self.color = clean_string(color)
-- 
2.43.0


From 942f1f58ad12765f7fd7d0deedddedc413245691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:34 +0000
Subject: [PATCH 15/36] fix: write what is registered for the KML root element

Extensions registered for KML were read but never written.
---
 fastkml/kml.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index b02eef8..193939f 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -186,15 +186,16 @@ class KML(_XMLObject):
             root = config.etree.Element(
                 f"{self.ns}{self.get_tag_name()}",
             )
-        xml_subelement_list(
-            obj=self,
-            element=root,
-            attr_name="features",
-            node_name="",
-            precision=precision,
-            verbosity=verbosity,
-            default=None,
-        )
+        for item in registry.get(self.__class__):
+            item.set_element(
+                obj=self,
+                element=root,
+                attr_name=item.attr_name,
+                node_name=item.node_name,
+                precision=precision,
+                verbosity=verbosity,
+                default=item.default,
+            )
         return cast(Element, root)
 
     def append(
-- 
2.43.0


From 149bada15087c836788306fd5aa7bc3ce37b7b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:34 +0000
Subject: [PATCH 16/36] fix: validate returns None when the etree
 implementation has no schema parser

After a schema parser was cached with lxml, validate with the standard library
raised TypeError instead.
---
 fastkml/validator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fastkml/validator.py b/fastkml/validator.py
index 404d625..0c60aac 100644
--- a/fastkml/validator.py
+++ b/fastkml/validator.py
@@ -130,10 +130,9 @@ def validate(
     if element is not None and file_to_validate is not None:
         raise ValueError(MUTUAL_EXCLUSIVE)
 
-    try:
-        schema_parser = get_schema_parser(schema)
-    except AttributeError:
+    if not hasattr(config.etree, "XMLSchema"):
         return None
+    schema_parser = get_schema_parser(schema)
 
     if file_to_validate is not None:
         element = config.etree.parse(file_to_validate)
-- 
2.43.0


From 7f984e3cb14446ffeebe5f1fff14860e4e64ad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:34 +0000
Subject: [PATCH 17/36] fix: report the validation error of an element that is
 part of a document

The path of the error is relative to the validated element, so looking it up
in the document raised an IndexError instead of the AssertionError.
---
 fastkml/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/validator.py b/fastkml/validator.py
index 0c60aac..c3e7c30 100644
--- a/fastkml/validator.py
+++ b/fastkml/validator.py
@@ -85,7 +85,7 @@ def handle_validation_error(
             parent = element.xpath(error_entry.path)[  # type: ignore[attr-defined]
                 0
             ].getparent()
-        except config.etree.XPathEvalError:
+        except (config.etree.XPathEvalError, IndexError):
             parent = element
         if parent is None:
             parent = element
-- 
2.43.0


From 9ad3829b21017d2a57218b05c85cb909034ebf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:13 +0000
Subject: [PATCH 18/36] fix: keep the time, position and angles of a track item
 together

An empty or invalid when, coord or angles element of a gx:Track, or lists of
different length, shifted the values of the following items, wrote tuples as
time stamps or raised a TypeError. Report them as KMLParseError, or drop the
affected item only if strict is False.
---
 fastkml/gx.py      | 38 +++++++++++++++++++++++++++++++++++---
 fastkml/helpers.py | 26 +++++++++++++++++---------
 2 files changed, 52 insertions(+), 12 deletions(-)

diff --git a/fastkml/gx.py b/fastkml/gx.py
index 3611790..67b7bbe 100644
--- a/fastkml/gx.py
+++ b/fastkml/gx.py
@@ -102,6 +102,7 @@ from fastkml.helpers import coords_subelement_list_kwarg
 from fastkml.helpers import datetime_subelement_list
 from fastkml.helpers import datetime_subelement_list_kwarg
 from fastkml.helpers import enum_subelement
+from fastkml.helpers import handle_error
 from fastkml.helpers import subelement_bool_kwarg
 from fastkml.helpers import subelement_enum_kwarg
 from fastkml.helpers import xml_subelement
@@ -111,6 +112,7 @@ from fastkml.helpers import xml_subelement_list_kwarg
 from fastkml.registry import RegistryItem
 from fastkml.registry import registry
 from fastkml.times import KmlDateTime
+from fastkml.types import Element
 
 __all__ = [
     "Angle",
@@ -250,7 +252,7 @@ class Track(_Geometry):
             If both `geometry` and `track_items` are specified.
 
         """
-        angles = list(angles) if angles else []
+        angles = [angle for angle in angles if angle != ()] if angles else []
         if (whens or coords) and track_items:
             msg = "Cannot specify both geometry and track_items"
             raise ValueError(msg)
@@ -259,7 +261,7 @@ class Track(_Geometry):
                 TrackItem(
                     when=cast(KmlDateTime, when),
                     coord=geo.Point(*coord),
-                    angle=Angle(*angle),
+                    angle=Angle(*(angle or ())),
                 )
                 for when, coord, angle in zip_longest(
                     whens,
@@ -267,6 +269,7 @@ class Track(_Geometry):
                     angles,
                     fillvalue=(),
                 )
+                if when and coord
             ]
         self.track_items = list(track_items) if track_items else []
         self.extended_data = extended_data
@@ -356,7 +359,36 @@ class Track(_Geometry):
             The angles of the track items.
 
         """
-        return tuple(item.angle.coords for item in self.track_items if item.angle)
+        if not any(item.angle for item in self.track_items):
+            return ()
+        return tuple((item.angle or Angle()).coords for item in self.track_items)
+
+    @classmethod
+    def _get_kwargs(
+        cls,
+        *,
+        ns: str,
+        name_spaces: Optional[Dict[str, str]] = None,
+        element: Element,
+        strict: bool,
+    ) -> Dict[str, Any]:
+        """Get the keyword arguments, check that there is a coord for each when."""
+        kwargs = super()._get_kwargs(
+            ns=ns,
+            name_spaces=name_spaces,
+            element=element,
+            strict=strict,
+        )
+        if len(kwargs.get("whens", ())) != len(kwargs.get("coords", ())):
+            msg = "The number of when and coord elements must be the same"
+            handle_error(
+                error=ValueError(msg),
+                strict=strict,
+                element=element,
+                node=element,
+                expected="Track",
+            )
+        return kwargs
 
     def __bool__(self) -> bool:
         """
diff --git a/fastkml/helpers.py b/fastkml/helpers.py
index 4746a74..ee4cabd 100644
--- a/fastkml/helpers.py
+++ b/fastkml/helpers.py
@@ -1147,17 +1147,18 @@ def datetime_subelement_list_kwarg(
     kwarg: str,
     classes: Tuple[Type[object], ...],
     strict: bool,
-) -> Dict[str, List["KmlDateTime"]]:
+) -> Dict[str, List[Optional["KmlDateTime"]]]:
     """Extract a list of KML datetime values from subelements of an XML element."""
-    args_list: List[KmlDateTime] = []
+    args_list: List[Optional[KmlDateTime]] = []
     cls = classes[0]
     if subelements := element.findall(f"{ns}{node_name}"):
         for subelement in subelements:
+            node_text = subelement.text.strip() if subelement.text else ""
             try:
                 args_list.append(
-                    cls.parse(subelement.text),  # type: ignore[attr-defined]
+                    cls.parse(node_text),  # type: ignore[attr-defined]
                 )
-            except ValueError as exc:  # noqa: PERF203
+            except ValueError as exc:
                 handle_error(
                     error=exc,
                     strict=strict,
@@ -1165,6 +1166,8 @@ def datetime_subelement_list_kwarg(
                     node=subelement,
                     expected="DateTime",
                 )
+                # keep the position, the values belong to those of another list.
+                args_list.append(None)
     return {kwarg: args_list} if args_list else {}
 
 
@@ -1175,13 +1178,17 @@ def get_coord_args(
 ) -> Iterable[PointType]:
     """Extract a list of KML coordinate values from subelements of an XML element."""
     for subelement in subelements:
-        if subelement.text:
+        # yield something for each subelement to keep the position, as the values
+        # belong to those of another list.
+        coords: Optional[Tuple[float, ...]] = ()
+        if subelement.text and subelement.text.strip():
             try:
-                yield cast(
-                    PointType,
-                    tuple(float(coord) for coord in subelement.text.split()),
-                )
+                coords = tuple(float(coord) for coord in subelement.text.split())
+                if len(coords) not in (2, 3):
+                    msg = "2 or 3 values are required"
+                    raise ValueError(msg)
             except ValueError as exc:
+                coords = None
                 handle_error(
                     error=exc,
                     strict=strict,
@@ -1189,6 +1196,7 @@ def get_coord_args(
                     node=subelement,
                     expected="Coordinates",
                 )
+        yield cast(PointType, coords)
 
 
 def coords_subelement_list_kwarg(
-- 
2.43.0


From ffa69b114e4334b85f7b7faf9b3b1b9fca83642f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:22 +0000
Subject: [PATCH 19/36] fix: do not truncate text at a comment

With lxml the text of an element ended at the first comment or processing
instruction inside of it; the standard library reads all of it.
---
 fastkml/base.py | 19 +++++++++++++++----
 fastkml/kml.py  |  2 ++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/fastkml/base.py b/fastkml/base.py
index 8fa9d87..d05fbb8 100644
--- a/fastkml/base.py
+++ b/fastkml/base.py
@@ -51,6 +51,20 @@ logger = logging.getLogger(__name__)
 __all__ = ["_XMLObject"]
 
 
+def _parse_string(string: str) -> Element:
+    """
+    Parse a string into an element.
+
+    Comments and processing instructions would split the text of an element, the
+    parser of the standard library always ignores them.
+    """
+    try:
+        parser = config.etree.XMLParser(remove_comments=True, remove_pis=True)
+    except TypeError:
+        parser = None
+    return cast(Element, config.etree.fromstring(string, parser=parser))
+
+
 class _XMLObject:
     """XML Baseclass."""
 
@@ -445,8 +459,5 @@ class _XMLObject:
             ns=ns,
             name_spaces=name_spaces,
             strict=strict,
-            element=cast(
-                Element,
-                config.etree.fromstring(string),
-            ),
+            element=_parse_string(string),
         )
diff --git a/fastkml/kml.py b/fastkml/kml.py
index 193939f..7f6217a 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -102,6 +102,8 @@ def lxml_parse_and_validate(
         parser=config.etree.XMLParser(
             huge_tree=True,
             recover=True,
+            remove_comments=True,
+            remove_pis=True,
         ),
     )
     if validate:
-- 
2.43.0


From 7377291e7b0ed8816a6b1463c606a661c482eacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:55 +0000
Subject: [PATCH 20/36] fix: a line or ring with positions of an invalid
 dimension has no geometry

Like a Point, instead of raising a TypeError when it is written or compared.
---
 fastkml/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index 1db639e..21f7f0f 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -666,7 +666,7 @@ class LineString(_Geometry):
             return None
         try:
             return geo.LineString.from_coordinates(self.kml_coordinates.coords)
-        except DimensionError:
+        except (DimensionError, TypeError):
             return None
 
 
@@ -806,7 +806,7 @@ class LinearRing(LineString):
                 geo.LinearRing,
                 geo.LinearRing.from_coordinates(self.kml_coordinates.coords),
             )
-        except DimensionError:
+        except (DimensionError, TypeError):
             return None
 
 
-- 
2.43.0


From 0eaa7ffa6d40c260c84669195ee64c1a2e3d6274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:31 +0000
Subject: [PATCH 21/36] fix: keep an existing file when the document cannot be
 encoded

KML.write truncated the file before it found out that the text holds
characters that cannot be encoded (lone surrogates, with ElementTree).
---
 fastkml/kml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index 7f6217a..304efd0 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -286,6 +286,8 @@ class KML(_XMLObject):
                 element,
                 encoding="unicode",
             )
+        # text that cannot be encoded must not destroy an existing file
+        xml_content.encode("UTF-8")
 
         if file_path.suffix == ".kmz":
             with zipfile.ZipFile(file_path, "w", zipfile.ZIP_DEFLATED) as kmz:
-- 
2.43.0


From 1c70b194f0186841406c5d308ca30ecc2a7b2434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:16 +0000
Subject: [PATCH 22/36] fix: Coordinates keeps its own list

Like all other constructors that are given a list, so that changing the list
of the caller afterwards does not change the coordinates.
---
 fastkml/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index 21f7f0f..83da5e9 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -266,7 +266,7 @@ class Coordinates(_XMLObject):
 
         """
         super().__init__(ns=ns, name_spaces=name_spaces, **kwargs)
-        self.coords = coords or []
+        self.coords = list(coords) if coords else []
 
     def __repr__(self) -> str:
         """Create a string (c)representation for Coordinates."""
-- 
2.43.0


From fe5d2b3799c273e86842d3acf9a12880adcd904b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:59 +0000
Subject: [PATCH 23/36] fix: comparing geometries with registered attributes is
 symmetric

Point(speed=1) == Point() raised AttributeError and Point() == Point(speed=1)
was True.
---
 fastkml/geometry.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index 83da5e9..cca2f91 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -467,14 +467,13 @@ class Point(_Geometry):
     def __eq__(self, other: object) -> bool:
         """Check if the Point objects are equal."""
         if isinstance(other, Point):
-            return all(
+            return self._get_splat() == other._get_splat() and all(
                 getattr(self, attr) == getattr(other, attr)
                 for attr in (
                     "extrude",
                     "altitude_mode",
                     "geometry",
                     *xml_attrs,
-                    *self._get_splat(),
                 )
             )
         return super().__eq__(other)
@@ -638,7 +637,7 @@ class LineString(_Geometry):
     def __eq__(self, other: object) -> bool:
         """Check if the LineString objects is equal."""
         if isinstance(other, LineString):
-            return all(
+            return self._get_splat() == other._get_splat() and all(
                 getattr(self, attr) == getattr(other, attr)
                 for attr in (
                     "extrude",
@@ -646,7 +645,6 @@ class LineString(_Geometry):
                     "altitude_mode",
                     "geometry",
                     *xml_attrs,
-                    *self._get_splat(),
                 )
             )
         return super().__eq__(other)
@@ -1128,7 +1126,7 @@ class Polygon(_Geometry):
     def __eq__(self, other: object) -> bool:
         """Check if the Polygon objects are equal."""
         if isinstance(other, Polygon):
-            return all(
+            return self._get_splat() == other._get_splat() and all(
                 getattr(self, attr) == getattr(other, attr)
                 for attr in (
                     "extrude",
@@ -1136,7 +1134,6 @@ class Polygon(_Geometry):
                     "altitude_mode",
                     "geometry",
                     *xml_attrs,
-                    *self._get_splat(),
                 )
             )
         return super().__eq__(other)
-- 
2.43.0


From b4b7ab75572e85090bbfda72d5440eec616fbd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:48 +0000
Subject: [PATCH 24/36] fix: compare the attributes of the rings of polygons

---
 fastkml/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index cca2f91..36890a5 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -1133,6 +1133,8 @@ class Polygon(_Geometry):
                     "tessellate",
                     "altitude_mode",
                     "geometry",
+                    "outer_boundary",
+                    "inner_boundaries",
                     *xml_attrs,
                 )
             )
-- 
2.43.0


From b2365269e2877f186517b786d5df29417c148f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:22 +0000
Subject: [PATCH 25/36] fix: a LineString does not equal a LinearRing

---
 fastkml/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index 36890a5..2584b35 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -636,7 +636,7 @@ class LineString(_Geometry):
 
     def __eq__(self, other: object) -> bool:
         """Check if the LineString objects is equal."""
-        if isinstance(other, LineString):
+        if isinstance(other, LineString) and type(self) is type(other):
             return self._get_splat() == other._get_splat() and all(
                 getattr(self, attr) == getattr(other, attr)
                 for attr in (
-- 
2.43.0


From 22c9415a07d58997d60c2a9ac83bd6d07cee1375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:29 +0000
Subject: [PATCH 26/36] fix: the repr of lines and polygons holds all their
 content

The attributes of the rings of a polygon and positions without a geometry
were missing.
---
 fastkml/geometry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index 2584b35..8a45071 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -618,7 +618,7 @@ class LineString(_Geometry):
             f"extrude={self.extrude!r}, "
             f"tessellate={self.tessellate!r}, "
             f"altitude_mode={self.altitude_mode}, "
-            f"geometry={self.geometry!r}, "
+            f"kml_coordinates={self.kml_coordinates!r}, "
             f"**{self._get_splat()!r},"
             ")"
         )
@@ -1118,7 +1118,8 @@ class Polygon(_Geometry):
             f"extrude={self.extrude!r}, "
             f"tessellate={self.tessellate!r}, "
             f"altitude_mode={self.altitude_mode}, "
-            f"geometry={self.geometry!r}, "
+            f"outer_boundary={self.outer_boundary!r}, "
+            f"inner_boundaries={self.inner_boundaries!r}, "
             f"**{self._get_splat()!r},"
             ")"
         )
-- 
2.43.0


From cf0d4242127834411cfa4626475a682a5d6df7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:53 +0000
Subject: [PATCH 27/36] fix: equality does not depend on the order of keyword
 arguments

---
 fastkml/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/base.py b/fastkml/base.py
index d05fbb8..647dfa2 100644
--- a/fastkml/base.py
+++ b/fastkml/base.py
@@ -99,7 +99,7 @@ class _XMLObject:
         )
         for arg, val in kwargs.items():
             setattr(self, arg, val)
-        self.__kwarg_keys = tuple(kwargs.keys())
+        self.__kwarg_keys = tuple(sorted(kwargs))
 
     def __repr__(self) -> str:
         """
-- 
2.43.0


From b5910cdb1ab65fd3efc310608497fcd12278ebea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:09 +0000
Subject: [PATCH 28/36] fix: from_string reads the content in the namespace it
 is given

---
 fastkml/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fastkml/base.py b/fastkml/base.py
index 647dfa2..55b44eb 100644
--- a/fastkml/base.py
+++ b/fastkml/base.py
@@ -455,6 +455,8 @@ class _XMLObject:
         name_spaces = name_spaces or {}
         name_spaces = {**config.NAME_SPACES, **name_spaces}
         ns = cls._get_ns(ns, name_spaces=name_spaces)
+        if ns:
+            name_spaces[cls._default_nsid] = ns
         return cls.class_from_element(
             ns=ns,
             name_spaces=name_spaces,
-- 
2.43.0


From 3fdce5a35def48be6b4358e6bb6703dbeda385c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:09 +0000
Subject: [PATCH 29/36] fix: read a NetworkLinkControl that has no namespace

---
 fastkml/network_link_control.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/fastkml/network_link_control.py b/fastkml/network_link_control.py
index 01d2d06..6285540 100644
--- a/fastkml/network_link_control.py
+++ b/fastkml/network_link_control.py
@@ -158,7 +158,7 @@ class NetworkLinkControl(_XMLObject):
 registry.register(
     NetworkLinkControl,
     RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         attr_name="min_refresh_period",
         node_name="minRefreshPeriod",
         classes=(float,),
@@ -170,7 +170,7 @@ registry.register(
 registry.register(
     NetworkLinkControl,
     RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         attr_name="max_session_length",
         node_name="maxSessionLength",
         classes=(float,),
@@ -182,7 +182,7 @@ registry.register(
 registry.register(
     NetworkLinkControl,
     RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         attr_name="cookie",
         node_name="cookie",
         classes=(str,),
@@ -193,7 +193,7 @@ registry.register(
 registry.register(
     NetworkLinkControl,
     RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         attr_name="message",
         node_name="message",
         classes=(str,),
@@ -204,7 +204,7 @@ registry.register(
 registry.register(
     NetworkLinkControl,
     RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         attr_name="link_name",
         node_name="linkName",
         classes=(str,),
@@ -215,7 +215,7 @@ registry.register(
 registry.register(
     NetworkLinkControl,
     RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         attr_name="link_description",
         node_name="linkDescription",
         classes=(str,),
@@ -226,7 +226,7 @@ registry.register(
 registry.register(
     NetworkLinkControl,
     RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         attr_name="link_snippet",
         node_name="linkSnippet",
         classes=(str,),
@@ -237,7 +237,7 @@ registry.register(
 registry.register(
     NetworkLinkControl,
     item=RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         classes=(KmlDateTime,),
         attr_name="expires",
         node_name="expires",
@@ -248,7 +248,7 @@ registry.register(
 registry.register(
     NetworkLinkControl,
     RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         attr_name="view",
         node_name="Camera,LookAt",
         classes=(
-- 
2.43.0


From 123b32fd0cf559724a10b5615f706a62f920505f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:12 +0000
Subject: [PATCH 30/36] fix: do not compute the parts of a multi geometry twice

---
 fastkml/geometry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index 8a45071..dc22545 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -1348,7 +1348,11 @@ class MultiGeometry(_BaseObject):
     def geometry(self) -> Optional[MultiGeometryType]:
         """Return the geometry of the MultiGeometry."""
         return create_multigeometry(
-            [geom.geometry for geom in self.kml_geometries if geom.geometry],
+            [
+                geometry
+                for geometry in (geom.geometry for geom in self.kml_geometries)
+                if geometry
+            ],
         )
 
 
-- 
2.43.0


From b1acb869e6f0a2e2cdef08e359c2d61557e5ce3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:25 +0000
Subject: [PATCH 31/36] fix: from_string reads large and deeply nested
 documents

---
 fastkml/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fastkml/base.py b/fastkml/base.py
index 55b44eb..0146edd 100644
--- a/fastkml/base.py
+++ b/fastkml/base.py
@@ -59,7 +59,11 @@ def _parse_string(string: str) -> Element:
     parser of the standard library always ignores them.
     """
     try:
-        parser = config.etree.XMLParser(remove_comments=True, remove_pis=True)
+        parser = config.etree.XMLParser(
+            huge_tree=True,
+            remove_comments=True,
+            remove_pis=True,
+        )
     except TypeError:
         parser = None
     return cast(Element, config.etree.fromstring(string, parser=parser))
-- 
2.43.0


From e73886c66e32b73a5898fc0a08a488a6b8f66302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:02 +0000
Subject: [PATCH 32/36] fix: do not read a date with a dangling or doubled dash
 as a shorter date

---
 fastkml/times.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/times.py b/fastkml/times.py
index 85668b8..328288e 100644
--- a/fastkml/times.py
+++ b/fastkml/times.py
@@ -51,7 +51,7 @@ __all__ = [
 # year and month may be separated by an optional dash
 # year is always 4 digits, month, day is always 2 digits
 year_month_day = re.compile(
-    r"^(?P<year>\d{4})(?:-)?(?P<month>\d{2})?(?:-)?(?P<day>\d{2})?$",
+    r"^(?P<year>\d{4})(?:-?(?P<month>\d{2})(?:-?(?P<day>\d{2}))?)?$",
 )
 
 
-- 
2.43.0


From 7c69b89f13b7004611d985b20a0effdb9166ffb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:27 +0000
Subject: [PATCH 33/36] fix: report a document without a root element as
 KMLParseError

---
 fastkml/kml.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index 304efd0..89474c9 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -47,6 +47,7 @@ from fastkml.base import _XMLObject
 from fastkml.containers import Document
 from fastkml.containers import Folder
 from fastkml.enums import Verbosity
+from fastkml.exceptions import KMLParseError
 from fastkml.features import NetworkLink
 from fastkml.features import Placemark
 from fastkml.helpers import xml_subelement_list
@@ -93,6 +94,7 @@ def lxml_parse_and_validate(
     Raises:
     ------
         TypeError: If lxml is not available.
+        KMLParseError: If the document has no root element.
 
     """
     if strict and validate is None:
@@ -106,9 +108,13 @@ def lxml_parse_and_validate(
             remove_pis=True,
         ),
     )
+    root = tree.getroot()
+    if root is None:
+        msg = "The document has no root element"
+        raise KMLParseError(msg)
     if validate:
         validator.validate(element=tree)
-    return cast(Element, tree.getroot())
+    return cast(Element, root)
 
 
 class KML(_XMLObject):
-- 
2.43.0


From fa7407f0e8cbb6150d0010e2df71d33b732a15db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:06 +0000
Subject: [PATCH 34/36] fix: ignore the encoding named in the declaration of
 text

---
 fastkml/base.py | 11 +++++++++--
 fastkml/kml.py  | 16 ++++++++++++++--
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/fastkml/base.py b/fastkml/base.py
index 0146edd..18b68c4 100644
--- a/fastkml/base.py
+++ b/fastkml/base.py
@@ -36,6 +36,7 @@ from typing import Any
 from typing import Dict
 from typing import Optional
 from typing import Tuple
+from typing import Union
 from typing import cast
 
 from typing_extensions import Self
@@ -51,21 +52,27 @@ logger = logging.getLogger(__name__)
 __all__ = ["_XMLObject"]
 
 
-def _parse_string(string: str) -> Element:
+def _parse_string(string: Union[str, bytes]) -> Element:
     """
     Parse a string into an element.
 
     Comments and processing instructions would split the text of an element, the
     parser of the standard library always ignores them.
+    An encoding named in the XML declaration does not apply to text.
     """
+    encoding = None
+    if isinstance(string, str):
+        encoding = "UTF-8"
+        string = string.encode(encoding, "surrogatepass")
     try:
         parser = config.etree.XMLParser(
+            encoding=encoding,
             huge_tree=True,
             remove_comments=True,
             remove_pis=True,
         )
     except TypeError:
-        parser = None
+        parser = config.etree.XMLParser(encoding=encoding)
     return cast(Element, config.etree.fromstring(string, parser=parser))
 
 
diff --git a/fastkml/kml.py b/fastkml/kml.py
index 89474c9..67752dc 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -28,6 +28,8 @@ http://schemas.opengis.net/kml/.
 
 import logging
 import zipfile
+from io import BytesIO
+from io import TextIOBase
 from pathlib import Path
 from typing import IO
 from typing import Any
@@ -76,6 +78,7 @@ def lxml_parse_and_validate(
     file: Union[Path, str, IO[AnyStr]],
     strict: bool,  # noqa: FBT001
     validate: Optional[bool],
+    encoding: Optional[str] = None,
 ) -> Element:
     """
     Parse and validate a KML file using lxml.
@@ -86,6 +89,7 @@ def lxml_parse_and_validate(
             Can be a file path (str or Path), or a file-like object.
         strict (bool): Whether to enforce strict parsing rules.
         validate (Optional[bool]): Whether to validate the file against the schema.
+        encoding (Optional[str]): Overrides the encoding the document declares.
 
     Returns:
     -------
@@ -102,6 +106,7 @@ def lxml_parse_and_validate(
     tree = config.etree.parse(
         file,
         parser=config.etree.XMLParser(
+            encoding=encoding,
             huge_tree=True,
             recover=True,
             remove_comments=True,
@@ -241,10 +246,17 @@ class KML(_XMLObject):
             KML object: The parsed KML object.
 
         """
+        source: Any = file
+        encoding = None
+        if isinstance(file, TextIOBase):
+            # The encoding named in the XML declaration does not apply to text
+            encoding = "UTF-8"
+            source = BytesIO(file.read().encode(encoding, "surrogatepass"))
         try:
-            root = lxml_parse_and_validate(file, strict, validate)
+            root = lxml_parse_and_validate(source, strict, validate, encoding)
         except TypeError:
-            root = config.etree.parse(file).getroot()
+            parser = config.etree.XMLParser(encoding=encoding)
+            root = config.etree.parse(source, parser=parser).getroot()
         if ns is None:
             ns = root.tag[:-3] if root.tag.endswith("kml") else ""
         name_spaces = dict(name_spaces or {})
-- 
2.43.0


From 37fcbcc138c652af84baa10b4885a11fa83da083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:26 +0000
Subject: [PATCH 35/36] fix: a polygon rejects inner boundaries given with a
 geometry

---
 fastkml/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index dc22545..9c31087 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -1029,14 +1029,14 @@ class Polygon(_Geometry):
         Raises
         ------
         GeometryError:
-            If both outer_boundary_is and geometry are provided.
+            If both boundaries and geometry are provided.
 
         Returns
         -------
         None
 
         """
-        if outer_boundary is not None and geometry is not None:
+        if geometry is not None and (outer_boundary is not None or inner_boundaries):
             raise GeometryError(MsgMutualExclusive)
         if geometry is not None:
             outer_boundary = OuterBoundaryIs(
-- 
2.43.0


From 786504da8e1492b888595e9610162eccb034d8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:26 +0000
Subject: [PATCH 36/36] fix: a track rejects angles given with track items

---
 fastkml/gx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/gx.py b/fastkml/gx.py
index 67b7bbe..5499784 100644
--- a/fastkml/gx.py
+++ b/fastkml/gx.py
@@ -253,7 +253,7 @@ class Track(_Geometry):
 
         """
         angles = [angle for angle in angles if angle != ()] if angles else []
-        if (whens or coords) and track_items:
+        if (whens or coords or angles) and track_items:
             msg = "Cannot specify both geometry and track_items"
             raise ValueError(msg)
         if not track_items and whens and coords:
-- 
2.43.0

