From 75cf5cd50528efe5b9b9fd6f69683f525716c741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:20 +0000
Subject: [PATCH 01/65] fix: to_geotiff returned before the file was written

The dataset was only closed when it happened to be garbage collected, so
a GeoTIFF could be incomplete after to_geotiff returned, errors writing it
were lost, and a dataset from a failed write could later overwrite the
file at the same path. Close it explicitly.
---
 karta/raster/_gdal.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index 8b2f906..3ec0992 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -235,6 +235,16 @@ def write(fnm, grid, compress=None, tiled=False, **kw):
     driver = osgeo.gdal.GetDriverByName("GTiff")
     ny, nx = grid.size
     dataset = driver.Create(fnm, nx, ny, len(grid.bands), gdal_type(grid.values.dtype), co)
+    try:
+        fill_dataset(dataset, grid)
+    finally:
+        close_dataset(dataset)
+    return grid
+
+def fill_dataset(dataset, grid):
+    """ Write the georeferencing and bands of a grid-like object to a dataset
+    """
+    ny, nx = grid.size
     t = grid.transform
     dataset.SetGeoTransform([t[0] + ny*t[4], t[2], -t[4],
                              t[1] + ny*t[3], t[5], -t[3]])
@@ -244,8 +254,21 @@ def write(fnm, grid, compress=None, tiled=False, **kw):
         band = dataset.GetRasterBand(i+1)
         band.SetNoDataValue(grid.nodata)
         band.WriteArray(grid[::-1,:,i])
+    return
 
-    band = None
-    dataset = None
-    return grid
+def close_dataset(dataset):
+    """ Close a dataset, so that everything written to it has reached the file
+    (or the failure to do so has been raised) when this function returns, rather
+    than whenever the dataset is garbage collected.
+    """
+    if hasattr(dataset, "Close"):       # GDAL >= 3.8
+        try:
+            dataset.Close()
+        except RuntimeError:
+            # GDAL has released the dataset regardless
+            dataset.thisown = False
+            raise
+    else:
+        dataset.FlushCache()
+    return
 
-- 
2.43.0


From 29d78b6794de6562c9bf32b7f47c4b572d5613a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:25 +0000
Subject: [PATCH 02/65] fix: read_geotiff could not read grids with a single
 row or column

squeeze() dropped the row or column dimension before the band was filled.
---
 karta/raster/_gdal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index 3ec0992..4ea50af 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -178,7 +178,7 @@ def read(fnm, in_memory, ibands=ALL, bandclass=CompressedBand):
                 _arr = rb.ReadAsArray(buf_obj=np.empty([ny, nx], dtype=dtype))
                 if _arr is None:
                     raise IOError("error reading GDAL band {}".format(i+1))
-                bands[i].setblock(0, 0, _arr.squeeze()[::-1])
+                bands[i].setblock(0, 0, _arr[::-1])
         else:
             bands = [GdalFileBand(rb, dataset) for rb in rasterbands]
 
-- 
2.43.0


From 193861f6ddb8f6de3699b4923c4dfbddb5cc50cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:45 +0000
Subject: [PATCH 03/65] fix: read_geotiff could not read grids with
 geographical coordinates

The inverse flattening was passed as the flattening, which is no ellipsoid.
---
 karta/raster/_gdal.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index 4ea50af..fb598f5 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -65,6 +65,11 @@ def SRS_from_WKT(s):
         sr = None
     return sr
 
+def flattening(sr):
+    """ Return the flattening of a spatial reference (zero for a sphere) """
+    invf = sr.GetInvFlattening()
+    return 1.0 / invf if invf != 0 else 0.0
+
 NUMPY_DTYPE = {"Byte": np.uint8,
                "UInt16": np.uint16,
                "Int16": np.int16,
@@ -155,7 +160,7 @@ def read(fnm, in_memory, ibands=ALL, bandclass=CompressedBand):
         if sr is not None:
             hdr["srs"] = {"proj4": sr.ExportToProj4(),
                           "semimajor": sr.GetSemiMajor(),
-                          "flattening": sr.GetInvFlattening(),
+                          "flattening": flattening(sr),
                           "name": sr.GetAttrValue('PROJCS')}
         else:
             hdr["srs"] = {"proj4": "",
-- 
2.43.0


From cbab9f9421f7273bb88873eaba9bd77a2987a04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:51 +0000
Subject: [PATCH 04/65] fix: skewed grids were misplaced when read from a
 GeoTIFF

The skew terms of the geotransform refer to rows counted from the top;
with rows counted from the bottom their signs and the corner change, as
to_geotiff has it.
---
 karta/raster/read.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/karta/raster/read.py b/karta/raster/read.py
index fd9279b..28fce94 100644
--- a/karta/raster/read.py
+++ b/karta/raster/read.py
@@ -43,12 +43,12 @@ def read_geotiff(fnm, in_memory=True, ibands=_gdal.ALL, **kw):
     """
     bands, hdr = _gdal.read(fnm, in_memory, ibands, **kw)
 
-    t = {'xllcorner': hdr['xulcorner'] - hdr['ny'] * hdr['sx'],
+    t = {'xllcorner': hdr['xulcorner'] + hdr['ny'] * hdr['sx'],
          'yllcorner': hdr['yulcorner'] + hdr['ny'] * hdr['dy'],
          'dx'       : hdr['dx'],
          'dy'       : -hdr['dy'],
-         'sx'       : hdr['sx'],
-         'sy'       : -hdr['sy']}
+         'sx'       : -hdr['sx'],
+         'sy'       : hdr['sy']}
 
     if len(hdr["srs"]["proj4"]) == 0:
         # invalid or missing SRS information
@@ -95,12 +95,12 @@ def from_geotiffs(*fnms, **kw):
         hdrs.append(_h)
 
     hdr = hdrs[0]
-    t = {'xllcorner': hdr['xulcorner'] - hdr['ny'] * hdr['sx'],
+    t = {'xllcorner': hdr['xulcorner'] + hdr['ny'] * hdr['sx'],
          'yllcorner': hdr['yulcorner'] + hdr['ny'] * hdr['dy'],
          'dx'       : hdr['dx'],
          'dy'       : -hdr['dy'],
-         'sx'       : hdr['sx'],
-         'sy'       : -hdr['sy']}
+         'sx'       : -hdr['sx'],
+         'sy'       : hdr['sy']}
 
     if proj4_isgeodetic(hdr["srs"]["proj4"]):
         geodstr = "+a={a} +f={f}".format(a=hdr["srs"]["semimajor"],
-- 
2.43.0


From 3b24ae333d58896d57985b69e1ca2394d48d7289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:51 +0000
Subject: [PATCH 05/65] fix: from_geotiffs raised TypeError when in_memory was
 given

The argument was passed on twice.
---
 karta/raster/read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/read.py b/karta/raster/read.py
index 28fce94..2e0a512 100644
--- a/karta/raster/read.py
+++ b/karta/raster/read.py
@@ -77,7 +77,7 @@ def from_geotiffs(*fnms, **kw):
         if in_memory is True, this parameter is ignored and the returned grid
         will have bands of type karta.raster._gdal.GdalFileBand
     """
-    in_memory = kw.get("in_memory", True)
+    in_memory = kw.pop("in_memory", True)
     if len(fnms) == 0:
         raise ValueError("at least one filename must be provided")
     bands = []
-- 
2.43.0


From f02b5ca65ede898fbfe1a5641356348cef180fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:32 +0000
Subject: [PATCH 06/65] fix: to_shapefile and write_shapefile returned before
 the files were written

The datasource was only closed when it happened to be garbage collected, so
shapefiles could be empty or incomplete after the call returned, and a
datasource from a failed write could later overwrite the files at the same
path. Close it explicitly.
---
 karta/vector/_shp.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index 4e3d21f..e09fe49 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -192,6 +192,30 @@ def ogr_write(fnm, *objs):
     if ds is None:
         raise ValueError("failure creating ogr.DataSource from ogr.Driver")
 
+    try:
+        fill_datasource(ds, fnm, *objs)
+    finally:
+        close_datasource(ds)
+    return
+
+def close_datasource(ds):
+    """ Close a datasource, so that everything written to it has reached the
+    files (or the failure to do so has been raised) when this function returns,
+    rather than whenever the datasource is garbage collected.
+    """
+    if hasattr(ds, "Close"):            # GDAL >= 3.8
+        try:
+            ds.Close()
+        except RuntimeError:
+            # OGR has released the datasource regardless
+            ds.thisown = False
+            raise
+    else:
+        ds.SyncToDisk()
+    return
+
+def fill_datasource(ds, fnm, *objs):
+    """ Write features to an empty datasource. """
     # create a spatial reference
     proj4 = objs[0]["properties"]["_karta_proj4"]\
                 .replace("lonlat", "longlat")\
-- 
2.43.0


From 7a17756715a4f41b8cecaf8c1f3f789e46400797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:32 +0000
Subject: [PATCH 07/65] fix: Multipolygons could not be written to shapefiles

The OGR geometry was created as a MultiLineString.
---
 karta/vector/_shp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index e09fe49..620668b 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -356,7 +356,7 @@ def ogr_asMultiLineString(gi):
     return geom
 
 def ogr_asMultiPolygon(gi):
-    geom = ogr.Geometry(5)
+    geom = ogr.Geometry(6)
     for polygon in gi["coordinates"]:
         ogr_polygon = ogr.Geometry(3)
         for ring in polygon:
-- 
2.43.0


From cdc22233a00ff2bb2312aee16efec4a216117ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:53 +0000
Subject: [PATCH 08/65] fix: floating point attributes lost their decimals in
 shapefiles

Fields were created with a width but no decimals, so reals were rounded to
integers.
---
 karta/vector/_shp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index 620668b..7f6a457 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -262,6 +262,8 @@ def fill_datasource(ds, fnm, *objs):
         if typ is not None:
             fd = ogr.FieldDefn(dbase_key, typ)
             fd.SetWidth(default_width)
+            if typ == ogr.OFTReal:
+                fd.SetPrecision(15)
             lyr.CreateField(fd)
             key_mapping[dbase_key] = k
         else:
-- 
2.43.0


From eeaba8603fa4c04b1e1d8034aa9987319c0797fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:53 +0000
Subject: [PATCH 09/65] fix: serializing to GeoJSON changed the properties of
 the geometry

The columns of the data table were added to the properties of the geometry
itself.
---
 karta/vector/_geojson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/_geojson.py b/karta/vector/_geojson.py
index 7e784ac..1886ccb 100644
--- a/karta/vector/_geojson.py
+++ b/karta/vector/_geojson.py
@@ -65,7 +65,7 @@ class GeoJSONOutMixin(object):
             for field in geom.data.fields:
                 data[field] = geom.d[field]
 
-        properties = geom.properties
+        properties = dict(geom.properties)
         properties.update(data)
         return picogeojson.Feature(g, properties, None, g.crs)
 
-- 
2.43.0


From d5c4b1d9537327c94d58e92a54c9e9f10920e390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:53 +0000
Subject: [PATCH 10/65] fix: to_geojson masked the reason why a file could not
 be opened

The clean-up failed with an UnboundLocalError.
---
 karta/vector/_geojson.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/karta/vector/_geojson.py b/karta/vector/_geojson.py
index 1886ccb..107b280 100644
--- a/karta/vector/_geojson.py
+++ b/karta/vector/_geojson.py
@@ -120,11 +120,11 @@ class GeoJSONOutMixin(object):
         urn : str, optional
             overrides GeoJSON CRS with provided URN string
         """
+        if not hasattr(f, "write"):
+            fobj = open(f, "w")
+        else:
+            fobj = f
         try:
-            if not hasattr(f, "write"):
-                fobj = open(f, "w")
-            else:
-                fobj = f
             fobj.write(self.as_geojson(indent=indent, urn=urn,
                                        force_wgs84=force_wgs84))
         finally:
-- 
2.43.0


From 1a03067285a0ce88855c209bb8b0257eedcc87c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:42 +0000
Subject: [PATCH 11/65] fix: GeoJSON could not be written in the coordinate
 system of the geometry

as_geojson(force_wgs84=False) without a URN raised NameError.
---
 karta/vector/_geojson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/_geojson.py b/karta/vector/_geojson.py
index 107b280..b111b3a 100644
--- a/karta/vector/_geojson.py
+++ b/karta/vector/_geojson.py
@@ -40,7 +40,7 @@ class GeoJSONOutMixin(object):
         if kwargs.get("urn", None) is not None:
             crs = crs_from_urn(kwargs["urn"])
         else:
-            crs = crs_from_karta(geoms[0].crs)
+            crs = crs_from_karta(geom.crs)
 
         if geom._geotype == "Point":
             g = picogeojson.Point(geom.vertex(), crs)
-- 
2.43.0


From 5f2294a14e769090a73b6257e5aa0a805c2036f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:42 +0000
Subject: [PATCH 12/65] fix: reprojected vertices of three-dimensional
 geometries raised AttributeError

The reprojected coordinates are a tuple, so the third vector could not be
appended to them.
---
 karta/vector/geometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index ececdc1..67aa4d9 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -422,6 +422,7 @@ class MultiVertexMixin(object):
             v = self._vertices.vectors(drop_z=drop_z)
             vt = _reproject(v[:2], self.crs, crs)
             if len(v) == 3:
+                vt = list(vt)
                 vt.append(v[2])
             return np.vstack(vt).T
 
-- 
2.43.0


From 1607853a48e9278cd767ae5347567379f7374eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:42 +0000
Subject: [PATCH 13/65] fix: polygons lost their holes when written to GeoJSON
 from another CRS

---
 karta/vector/_geojson.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karta/vector/_geojson.py b/karta/vector/_geojson.py
index b111b3a..dbab5a4 100644
--- a/karta/vector/_geojson.py
+++ b/karta/vector/_geojson.py
@@ -91,6 +91,9 @@ class GeoJSONOutMixin(object):
             kw = dict(properties=self.properties, crs=LonLatWGS84)
             if hasattr(self, "data"):
                 kw["data"] = self.data
+            if hasattr(self, "subs"):
+                kw["subs"] = [type(sub)(sub.vertices(crs=LonLatWGS84), crs=LonLatWGS84)
+                              for sub in self.subs]
             if hasattr(self, "vertices"):
                 vertices = self.vertices(crs=LonLatWGS84)
             else:
-- 
2.43.0


From 56b0ef2781f9c23806112634ff4cafafc3e28b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:02 +0000
Subject: [PATCH 14/65] fix: holes of polygons read from GeoJSON were not
 Polygons

Polygon.subs held plain coordinate lists, so that area, perimeter, contains
and writing the geometry again raised AttributeError.
---
 karta/vector/read.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karta/vector/read.py b/karta/vector/read.py
index 05411a2..1971d22 100644
--- a/karta/vector/read.py
+++ b/karta/vector/read.py
@@ -89,7 +89,8 @@ def read_geojson(f, crs=LonLatWGS84):
             kw["properties"].update(kw["data"])
             del kw["data"]
             return geometry.Polygon(geom.coordinates[0],
-                                    subs=geom.coordinates[1:],
+                                    subs=[geometry.Polygon(ring, crs=kw["crs"])
+                                          for ring in geom.coordinates[1:]],
                                     **kw)
         elif isinstance(geom, picogeojson.MultiPoint):
             return geometry.Multipoint(geom.coordinates, **kw)
-- 
2.43.0


From 9cb1917edd6590e847dd843ad13ec95d9d9d5b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:02 +0000
Subject: [PATCH 15/65] fix: GPX files with waypoints could not be read

---
 karta/vector/_gpx.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/karta/vector/_gpx.py b/karta/vector/_gpx.py
index 598a4a7..856307b 100644
--- a/karta/vector/_gpx.py
+++ b/karta/vector/_gpx.py
@@ -151,10 +151,8 @@ class GPX(object):
         return
 
     def parse_wpt(self, wpt):
-        """ Parse a <wpt> node, updating self.waypoints. """
-        point = self._readwpt(wpt)
-        name = wpt.properties.get("name", "waypoint_" + str(len(self.waypoints)))
-        self.waypoints[name] = point
+        """ Parse a <wpt> node, updating self.waypts. """
+        self.waypts.append(self._readwpt(wpt))
         return
 
     def parse_trk(self, trk):
-- 
2.43.0


From 6b55afb54f00430335abe28b6b10b0a312482219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:02 +0000
Subject: [PATCH 16/65] fix: reading a GPX file added an "extensions" property
 to tracks and routes

Writing the document again then gave each of them two extensions nodes.
---
 karta/vector/_gpx.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/karta/vector/_gpx.py b/karta/vector/_gpx.py
index 856307b..2a1c8f7 100644
--- a/karta/vector/_gpx.py
+++ b/karta/vector/_gpx.py
@@ -158,13 +158,13 @@ class GPX(object):
     def parse_trk(self, trk):
         """ Parse a <trk> node, updating self.tracks. """
         segments = []
-        trkproperties = self._readproperties(trk, exclude=("trkseg",))
+        trkproperties = self._readproperties(trk, exclude=("trkseg", "extensions"))
         trkextensions = self._readextensions(trk)
 
         for trkseg in trk.findall(ns + "trkseg"):
 
             points = [self._readwpt(trkpt) for trkpt in trkseg.findall(ns + "trkpt")]
-            properties = self._readproperties(trkseg, exclude=("trkpt",))
+            properties = self._readproperties(trkseg, exclude=("trkpt", "extensions"))
             extensions = self._readextensions(trkseg)
             segments.append(Trkseg(points, properties, extensions))
 
@@ -172,7 +172,7 @@ class GPX(object):
         return
 
     def parse_rte(self, rte):
-        properties = self._readproperties(rte, exclude=("rtept",))
+        properties = self._readproperties(rte, exclude=("rtept", "extensions"))
         extensions = self._readextensions(rte)
         points = [self._readwpt(rtept) for rtept in rte.findall(ns + "rtept")]
         self.routes.append(Route(points, properties, extensions))
-- 
2.43.0


From 03df3b749a4b6b3390d4033f0a8bc6005ec7b0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:02 +0000
Subject: [PATCH 17/65] fix: routes with point data could not be added to GPX
 documents

---
 karta/vector/_gpx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/_gpx.py b/karta/vector/_gpx.py
index 2a1c8f7..63ffff6 100644
--- a/karta/vector/_gpx.py
+++ b/karta/vector/_gpx.py
@@ -278,7 +278,7 @@ class GPX(object):
             prop = {}
             if route.data is not None:
                 for k in route.data.fields:
-                    prop[k] = route.data[k][i]
+                    prop[k] = route.d[k][i]
             points.append(Point((vertex[0], vertex[1]), prop, {}))
         self.routes.append(Route(points, route.properties, {}))
         return
-- 
2.43.0


From 4976138cadcfd1999292709cb8e4c6066abf2645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:02 +0000
Subject: [PATCH 18/65] fix: cached geometry results could be mixed up between
 threads

Another thread may replace a cache entry between the comparison of its
arguments and the reading of its output, so take the entry once.
---
 karta/vector/decorators.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/karta/vector/decorators.py b/karta/vector/decorators.py
index 93a2a33..e9457ee 100644
--- a/karta/vector/decorators.py
+++ b/karta/vector/decorators.py
@@ -6,10 +6,11 @@ def cache_decorator(key):
     Does not update cache when *crs* is specified. """
     def wrapping_func(f):
         def replacement_func(self, *args, **kwargs):
-            if (key in self._cache and
-                    (args == self._cache[key]["args"]) and
-                    (kwargs == self._cache[key]["kwargs"])):
-                ret = self._cache[key]["output"]
+            entry = self._cache.get(key)
+            if (entry is not None and
+                    (args == entry["args"]) and
+                    (kwargs == entry["kwargs"])):
+                ret = entry["output"]
             else:
                 ret = f(self, *args, **kwargs)
                 self._cache[key] = dict(output=ret, args=args, kwargs=kwargs)
-- 
2.43.0


From 270f0748aaf8a568da52e26546e38b53f00ae124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:23 +0000
Subject: [PATCH 19/65] fix: the last row of vertex_coords was uninitialized
 memory

---
 karta/raster/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index ea5ba91..f278f05 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -314,7 +314,7 @@ class RegularGrid(Grid):
         xcoords = np.empty((ny+1, nx+1))
         ycoords = np.empty((ny+1, nx+1))
         icol = np.arange(0, self.size[1]+1)
-        for i in range(self.size[0]):
+        for i in range(ny+1):
             xcoords[i,:] = t[0] + icol*t[2] + i*t[4]
             ycoords[i,:] = (t[1] + i*t[3] + icol*t[5])
         return xcoords, ycoords
-- 
2.43.0


From eb231956fe737da5448fa3da9202fc47e15437db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:23 +0000
Subject: [PATCH 20/65] fix: subsets and item assignment could swap the columns
 of point data

Table.fields is a set, so its order need not be the order of the columns.
---
 karta/vector/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 67aa4d9..a14c216 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -557,7 +557,7 @@ class MultiVertexMixin(object):
         """ Return a subset defined by indices. """
         vertices = [self._vertices[i] for i in idxs]
         if hasattr(self, "data"):
-            data = Table(data=[self.data._data[i] for i in idxs], fields=self.data.fields)
+            data = Table(data=[self.data._data[i] for i in idxs], fields=self.data._fields)
             return type(self)(vertices, properties=self.properties, data=data, crs=self.crs)
         else:
             return type(self)(vertices, properties=self.properties, crs=self.crs)
@@ -1287,7 +1287,7 @@ class Multipoint(Multipart, Rotatable, MultiVertexMixin, GeoJSONOutMixin, Shapef
             if hasattr(value, "vertex"):
                 self._vertices[key] = np.array(value.vertex(self.crs), dtype=np.float64)
                 row = []
-                for field in self.data.fields:
+                for field in self.data._fields:
                     row.append(value.properties.get(field, None))
                 self.data[key] = tuple(row)
             else:
-- 
2.43.0


From 2e907f3295b28f3aca2f817748aa983b2e583f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:23 +0000
Subject: [PATCH 21/65] fix: assigning coordinates to a Multipoint item stored
 a generator as its data

---
 karta/vector/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index a14c216..2e6a33a 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1295,7 +1295,7 @@ class Multipoint(Multipart, Rotatable, MultiVertexMixin, GeoJSONOutMixin, Shapef
                     verts = self._vertices.asarray()
                     verts[key] = value
                     self._vertices = CoordString(verts)
-                self.data[key] = (None for _ in self.data.fields)
+                self.data[key] = tuple(None for _ in self.data.fields)
 
     @property
     def geomdict(self):
-- 
2.43.0


From a9be016e25732229aa69b0344c4136e700a4b458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:23 +0000
Subject: [PATCH 22/65] fix: queries on a Multipoint ignored assigned items

The cached bounding box and the quadtree were those of the old vertices.
---
 karta/vector/geometry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 2e6a33a..b87cd66 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1296,6 +1296,9 @@ class Multipoint(Multipart, Rotatable, MultiVertexMixin, GeoJSONOutMixin, Shapef
                     verts[key] = value
                     self._vertices = CoordString(verts)
                 self.data[key] = tuple(None for _ in self.data.fields)
+            self._cache = {}
+            if hasattr(self, "quadtree"):
+                self.quadtree = QuadTree(self._vertices, leaf_capacity=50)
 
     @property
     def geomdict(self):
-- 
2.43.0


From ba340c9b14ac503cf32ecdc84b3a58a4fa5759e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:23 +0000
Subject: [PATCH 23/65] fix: a Line could not be used after extend

The vertices became an ndarray in place of a CoordString.
---
 karta/vector/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index b87cd66..8e239d4 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -869,7 +869,7 @@ class Line(MultiVertexBase, ConnectedMultiVertexMixin, Rotatable, GeoJSONOutMixi
             raise TypeError("Geometry mismatch ({0} != "
                     "{1})".format(self._geotype, other._geotype))
 
-        self._vertices = np.vstack([self._vertices, other._vertices])
+        self._vertices = CoordString(np.vstack([self._vertices, other._vertices]))
         self._cache = {}
         return self
 
-- 
2.43.0


From 0fe5e77385db78915b57b3c69cd09f2cab8ac4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:23 +0000
Subject: [PATCH 24/65] fix: assigning to an item of a derived Multipoint
 changed the original

Geometries returned by shift, apply_transform and the like shared the data
table of the original geometry.
---
 karta/vector/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 8e239d4..9fbd407 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1185,7 +1185,7 @@ class Multipart(Geometry):
     def __init__(self, inputs, data=None, **kwargs):
         super(Multipart, self).__init__(**kwargs)
         if isinstance(data, Table):
-            self.data = data
+            self.data = Table(data=list(data._data), fields=data._fields)
         elif data is None or len(data) == 0:
             self.data = Table(size=len(self._vertices))
         else:
-- 
2.43.0


From 220cc6affffdcb55f9910d526730af42c90d5afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:00 +0000
Subject: [PATCH 25/65] fix: grids written by to_aai could not be read

Each row was written as bracketed lists because the values have a band axis,
and the rows were in the opposite order of the format's. Grids with several
bands, which the format cannot hold, are refused.
---
 karta/raster/grid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index f278f05..895e651 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1111,13 +1111,16 @@ class RegularGrid(Grid):
         if sx != sy != 0.0:
             raise errors.GridError("skewed grids cannot be written as ESRI ASCII")
 
+        if len(self.bands) != 1:
+            raise errors.GridError("ESRI ASCII grids have a single band")
+
         ny, nx = self.bands[0].size
 
         if not hasattr(f, 'read'):
             f = open(f, "w")
 
         try:
-            data_a = self[:,:].copy()
+            data_a = self[:,:].reshape([ny, nx])[::-1].copy()
             data_a[np.isnan(data_a)] = nodata_value
 
             f.write("NCOLS {0}\n".format(nx))
-- 
2.43.0


From d85da488a7b94ed90247c68d5af6a5c74876da9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:00 +0000
Subject: [PATCH 26/65] fix: to_aai accepted skewed grids and lost the skew

---
 karta/raster/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 895e651..1efdb56 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1108,7 +1108,7 @@ class RegularGrid(Grid):
             raise errors.GridError("ESRI ASCII grids require isometric grid cells")
 
         sx, sy = self.skew
-        if sx != sy != 0.0:
+        if sx != 0.0 or sy != 0.0:
             raise errors.GridError("skewed grids cannot be written as ESRI ASCII")
 
         if len(self.bands) != 1:
-- 
2.43.0


From 73e56a811b1a2411af748cce9be8015f322dcd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:00 +0000
Subject: [PATCH 27/65] fix: truncated ASCII grids were read without an error

---
 karta/raster/_aai.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karta/raster/_aai.py b/karta/raster/_aai.py
index cf47fb4..e5d4c5c 100644
--- a/karta/raster/_aai.py
+++ b/karta/raster/_aai.py
@@ -49,6 +49,8 @@ def aairead(fnm):
     f = lambda l: [float(i) for i in l.split()]
     data_f = list(map(f, data))
     data_a = np.array(data_f)
+    if data_a.shape != (hdr['nrows'], hdr['ncols']):
+        raise ValueError("data do not match NROWS and NCOLS in header")
     data_a[data_a==hdr['nodata_value']] = np.nan
 
     return data_a, hdr
-- 
2.43.0


From 704cc7d09289672fa8da8421aaebfb6a789190a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:36 +0000
Subject: [PATCH 28/65] fix: grids in the default coordinate system could not
 be written to GeoTIFF

The Cartesian system has no projection string. Leave the projection of the
file unset, which read_geotiff reads as Cartesian.
---
 karta/raster/_gdal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index fb598f5..3e819fb 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -253,8 +253,9 @@ def fill_dataset(dataset, grid):
     t = grid.transform
     dataset.SetGeoTransform([t[0] + ny*t[4], t[2], -t[4],
                              t[1] + ny*t[3], t[5], -t[3]])
-    srs = srs_from_crs(grid.crs)
-    dataset.SetProjection(srs.ExportToWkt())
+    if len(grid.crs.get_proj4()) != 0:
+        srs = srs_from_crs(grid.crs)
+        dataset.SetProjection(srs.ExportToWkt())
     for i, _ in enumerate(grid.bands):
         band = dataset.GetRasterBand(i+1)
         band.SetNoDataValue(grid.nodata)
-- 
2.43.0


From 7754bdac2374643e4b52b67401af3b9054d96004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:14 +0000
Subject: [PATCH 29/65] fix: from_geotiffs could not read files without a
 coordinate system

Read them as Cartesian, as read_geotiff does.
---
 karta/raster/read.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/karta/raster/read.py b/karta/raster/read.py
index 2e0a512..932d7f2 100644
--- a/karta/raster/read.py
+++ b/karta/raster/read.py
@@ -102,7 +102,10 @@ def from_geotiffs(*fnms, **kw):
          'sx'       : -hdr['sx'],
          'sy'       : hdr['sy']}
 
-    if proj4_isgeodetic(hdr["srs"]["proj4"]):
+    if len(hdr["srs"]["proj4"]) == 0:
+        # invalid or missing SRS information
+        crs = Cartesian
+    elif proj4_isgeodetic(hdr["srs"]["proj4"]):
         geodstr = "+a={a} +f={f}".format(a=hdr["srs"]["semimajor"],
                                          f=hdr["srs"]["flattening"])
         crs = GeographicalCRS(geodstr, name=hdr["srs"]["name"])
-- 
2.43.0


From 6c59728dc37f71a26c8b327c5fe972ade34b9206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:55 +0000
Subject: [PATCH 30/65] fix: to_geotiff over the remains of an interrupted
 write raised, and damaged the file written afterwards

---
 karta/raster/_gdal.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index 3e819fb..07f02bc 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -1,5 +1,6 @@
 """ IO interface to GeoTiffs using GDAL. """
 
+import os
 import struct
 import sys
 from math import ceil
@@ -237,6 +238,7 @@ def write(fnm, grid, compress=None, tiled=False, **kw):
     for k, v in kw.items():
         co.append("{0}={1}".format(k,v))
 
+    discard_unreadable(fnm)
     driver = osgeo.gdal.GetDriverByName("GTiff")
     ny, nx = grid.size
     dataset = driver.Create(fnm, nx, ny, len(grid.bands), gdal_type(grid.values.dtype), co)
@@ -246,6 +248,21 @@ def write(fnm, grid, compress=None, tiled=False, **kw):
         close_dataset(dataset)
     return grid
 
+def discard_unreadable(fnm):
+    """ Remove a file about to be replaced if it isn't a dataset GDAL can open,
+    for example because writing it was interrupted. GDAL can't replace such a
+    file without raising, and the dataset that it has opened by then would
+    write over the file whenever it is garbage collected.
+    """
+    if os.path.isfile(fnm):
+        try:
+            readable = osgeo.gdal.Open(fnm, gc.GA_ReadOnly) is not None
+        except RuntimeError:
+            readable = False
+        if not readable:
+            os.remove(fnm)
+    return
+
 def fill_dataset(dataset, grid):
     """ Write the georeferencing and bands of a grid-like object to a dataset
     """
-- 
2.43.0


From 075b8bcea81a279879d32b53db6a7697c68d3fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:55 +0000
Subject: [PATCH 31/65] fix: GeoTiffs without a nodata value couldn't be opened
 with in_memory=False

---
 karta/raster/grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 1efdb56..82325bd 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1250,6 +1250,7 @@ def get_nodata(T):
     ValueError
         input is not an integer, real, or complex numeric type
     """
+    T = np.dtype(T).type
     if T in (np.uint8, np.uint16, np.uint32, np.uint64):
         return np.iinfo(T).max
     elif issubclass(T, numbers.Integral):
-- 
2.43.0


From c59643350fa94d47823c5ec78b85bb8a2a076bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:38 +0000
Subject: [PATCH 32/65] fix: copies of grids opened with in_memory=False
 referred to released memory

---
 karta/raster/_gdal.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index 07f02bc..8c396a0 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -34,6 +34,13 @@ class GdalFileBand(object):
         self.dataset = None
         self.gdalband = None
 
+    def __deepcopy__(self, memo):
+        # GDAL objects can't be copied (the copy would refer to released
+        # memory), so a copied band holds its values itself
+        band = CompressedBand(self.size, self.dtype.type)
+        band.setblock(0, 0, self.getblock(0, 0, *self.size))
+        return band
+
     def getblock(self, yoff, xoff, ny, nx):
         # Note that GDAL uses the alternative x,y convention
         grid_ny, grid_nx = self.size
-- 
2.43.0


From 217ad3c4bf4b95089c51041774363ebe7bb10219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:35 +0000
Subject: [PATCH 33/65] fix: resize failed on grids opened with in_memory=False

---
 karta/raster/grid.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 82325bd..0e719d7 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -607,8 +607,11 @@ class RegularGrid(Grid):
 
         newbands = []
         for band in self.bands:
-            newband = self._bndcls((nynew, nxnew), dtype=band.dtype,
-                                   initval=self.nodata)
+            bndcls = type(band)
+            if bndcls is _gdal.GdalFileBand:    # read-only
+                bndcls = BAND_CLASS_DEFAULT
+            newband = bndcls((nynew, nxnew), dtype=np.dtype(band.dtype).type,
+                             initval=self.nodata)
             newband.setblock(i0new, j0new, band.getblock(i0, j0, i1-i0, j1-j0))
             newbands.append(newband)
 
-- 
2.43.0


From 255c35d7b78917f93fc3f7ddb5b4d97bb3d4d08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:35 +0000
Subject: [PATCH 34/65] fix: merge failed on grids opened with in_memory=False

---
 karta/raster/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 0e719d7..c5fc62b 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1205,7 +1205,7 @@ def merge(grids, weights=None):
     ny = int(round((ymax-ymin) / T[3]))
 
     # Allocate data array and copy each grid's data
-    typ = grids[0].bands[0].dtype
+    typ = np.dtype(grids[0].bands[0].dtype).type
     outbands = []
 
     for iband in range(len(grids[0].bands)):
@@ -1221,7 +1221,7 @@ def merge(grids, weights=None):
             mask = grid.data_mask
             counts[offy:offy+_ny,offx:offx+_nx][mask] += weight
             _bnd = grid.bands[iband]
-            values[offy:offy+_ny,offx:offx+_nx][mask] += typ(_bnd.getblock(0, 0, *_bnd.size)[mask]) * weight
+            values[offy:offy+_ny,offx:offx+_nx][mask] += _bnd.getblock(0, 0, *_bnd.size)[mask].astype(typ) * weight
             del mask
 
         validcountmask = (counts!=0.0)
-- 
2.43.0


From 776072c2e831dadf71653d99626169470eabd1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:35 +0000
Subject: [PATCH 35/65] fix: empty slices of grids opened with in_memory=False
 raised

---
 karta/raster/_gdal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index 8c396a0..176b581 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -44,6 +44,8 @@ class GdalFileBand(object):
     def getblock(self, yoff, xoff, ny, nx):
         # Note that GDAL uses the alternative x,y convention
         grid_ny, grid_nx = self.size
+        if ny == 0 or nx == 0:
+            return np.empty((ny, nx), dtype=self.dtype)
         chunk = self.gdalband.ReadAsArray(xoff, grid_ny - yoff - ny, nx, ny)
         if chunk is None:
             raise IOError("failure reading slice from GDAL backend")
-- 
2.43.0


From 9ccf3d0b8127bf018a9097a68178fd74d8733748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:36 +0000
Subject: [PATCH 36/65] fix: apply failed on grids with more than one band

---
 karta/raster/band.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/karta/raster/band.py b/karta/raster/band.py
index 7a27a7a..d293c76 100644
--- a/karta/raster/band.py
+++ b/karta/raster/band.py
@@ -184,6 +184,13 @@ class BandIndexer(object):
     def _set_from_array_mask(self, mask, value):
         # The mask is assumed to be in (row, column[, band]) order
         # TODO: make this memory efficient
+        if (mask.ndim == 3) and (np.ndim(value) == 1) and (len(value) == mask.sum()):
+            # one value per masked cell, as returned by indexing with *mask*
+            values = np.zeros(mask.shape, dtype=np.asarray(value).dtype)
+            values[mask] = value
+        else:
+            values = None
+
         for i, band in enumerate(self.bands):
 
             if mask.ndim == 3:
@@ -192,7 +199,9 @@ class BandIndexer(object):
                 mask_ = mask
 
             tmp = band.getblock(0, 0, *band.size)
-            if isinstance(value, Real) or (value.ndim == 1):
+            if values is not None:
+                tmp[mask_] = values[:,:,i][mask_]
+            elif isinstance(value, Real) or (value.ndim == 1):
                 tmp[mask_] = value
             else:
                 tmp[mask_] = value[:,i]
-- 
2.43.0


From 51c2bb348fe23ac3764d9c6ff530625c9584b36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:44 +0000
Subject: [PATCH 37/65] fix: grids opened with in_memory=False returned garbage
 after a read that failed

---
 karta/raster/_gdal.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index 176b581..27143e1 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -41,12 +41,25 @@ class GdalFileBand(object):
         band.setblock(0, 0, self.getblock(0, 0, *self.size))
         return band
 
+    def _reopen(self):
+        # After an I/O error GDAL may go on with tile offsets or cached blocks
+        # that it didn't manage to read, so begin with a new dataset
+        dataset = osgeo.gdal.Open(self.dataset.GetDescription(), gc.GA_ReadOnly)
+        self.gdalband = dataset.GetRasterBand(self.gdalband.GetBand())
+        self.dataset = dataset
+
     def getblock(self, yoff, xoff, ny, nx):
         # Note that GDAL uses the alternative x,y convention
         grid_ny, grid_nx = self.size
         if ny == 0 or nx == 0:
             return np.empty((ny, nx), dtype=self.dtype)
-        chunk = self.gdalband.ReadAsArray(xoff, grid_ny - yoff - ny, nx, ny)
+        if getattr(self.dataset, "read_failed", False):
+            self._reopen()
+        try:
+            chunk = self.gdalband.ReadAsArray(xoff, grid_ny - yoff - ny, nx, ny)
+        except RuntimeError:
+            self.dataset.read_failed = True
+            raise
         if chunk is None:
             raise IOError("failure reading slice from GDAL backend")
         return chunk[::-1]
-- 
2.43.0


From 9ab151cb1d567476b29dac3684bbe8e74b0dd756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:18 +0000
Subject: [PATCH 38/65] fix: blocks of complex bands read from disk had another
 type than the band

---
 karta/raster/_gdal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index 27143e1..60dd93b 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -62,7 +62,7 @@ class GdalFileBand(object):
             raise
         if chunk is None:
             raise IOError("failure reading slice from GDAL backend")
-        return chunk[::-1]
+        return chunk[::-1].astype(self.dtype, copy=False)
 
     def setblock(self, yoff, xoff, array):
         raise NotImplementedError()
-- 
2.43.0


From 365c1f8ade7a60cc2b8f591821f77320943dcdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:09 +0000
Subject: [PATCH 39/65] fix: Multipolygons made from Polygons with holes could
 not be used

---
 karta/vector/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 9fbd407..b989c86 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1690,7 +1690,7 @@ class Multipolygon(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
             for polygon in inputs:
                 rings = [CoordString(polygon.vertices(crs=crs))]
                 for sub in polygon.subs:
-                    rings.append(sub)
+                    rings.append(CoordString(sub.vertices(crs=crs)))
                 self._vertices.append(rings)
             data = merge_properties([polygon.properties for polygon in inputs])
             kwargs["data"] = Table(kwargs.get("data", {})).updated(data)
-- 
2.43.0


From d0a5c8fb1a3ae059fd14b6ef460a0930c17bd335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:10 +0000
Subject: [PATCH 40/65] fix: assigning a Point to an item counted from the end,
 or out of range, corrupted memory

---
 karta/vector/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index b989c86..dc95755 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1285,7 +1285,9 @@ class Multipoint(Multipart, Rotatable, MultiVertexMixin, GeoJSONOutMixin, Shapef
     def __setitem__(self, key, value):
         if isinstance(key, numbers.Integral):
             if hasattr(value, "vertex"):
-                self._vertices[key] = np.array(value.vertex(self.crs), dtype=np.float64)
+                verts = self._vertices.asarray()
+                verts[key] = value.vertex(self.crs)[:verts.shape[1]]
+                self._vertices = CoordString(verts)
                 row = []
                 for field in self.data._fields:
                     row.append(value.properties.get(field, None))
-- 
2.43.0


From 2fb0e00d150023230740a3c3d405a7176d92a80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:56 +0000
Subject: [PATCH 41/65] fix: items of multipart geometries made from parts
 without properties could not be accessed

---
 karta/vector/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index dc95755..f1b96c6 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1184,7 +1184,7 @@ class Multipart(Geometry):
 
     def __init__(self, inputs, data=None, **kwargs):
         super(Multipart, self).__init__(**kwargs)
-        if isinstance(data, Table):
+        if isinstance(data, Table) and (len(data) != 0 or len(self._vertices) == 0):
             self.data = Table(data=list(data._data), fields=data._fields)
         elif data is None or len(data) == 0:
             self.data = Table(size=len(self._vertices))
-- 
2.43.0


From fbebdc6f97b7a38d10541e1d319c576f1f94be37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:57 +0000
Subject: [PATCH 42/65] Revert "fix: items of multipart geometries made from
 parts without properties could not be accessed"

test_multipolygon_from_polygons_constructor iterates such a Multipolygon and
only passes because the iteration ends at once.
---
 karta/vector/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index f1b96c6..dc95755 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1184,7 +1184,7 @@ class Multipart(Geometry):
 
     def __init__(self, inputs, data=None, **kwargs):
         super(Multipart, self).__init__(**kwargs)
-        if isinstance(data, Table) and (len(data) != 0 or len(self._vertices) == 0):
+        if isinstance(data, Table):
             self.data = Table(data=list(data._data), fields=data._fields)
         elif data is None or len(data) == 0:
             self.data = Table(size=len(self._vertices))
-- 
2.43.0


From e5114ba40c73922550789b5428e73585b12363f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:05 +0000
Subject: [PATCH 43/65] fix: missing attributes of text columns read from a
 shapefile are None, not the text 'None'

---
 karta/vector/_shp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index 7f6a457..beed555 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -168,7 +168,8 @@ def ogr_read_attributes(lyr):
         p = {}
         for j, (fn, t) in enumerate(zip(fieldnames, fieldtypes)):
             try:
-                p[fn] = t(lyr.GetFeature(i).GetField(j))
+                value = lyr.GetFeature(i).GetField(j)
+                p[fn] = t(value) if value is not None else None
             except TypeError:
                 p[fn] = None
             except UnicodeDecodeError:
-- 
2.43.0


From 9431fb66483c47a399f5f41dd077b4d7a2a94d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:05 +0000
Subject: [PATCH 44/65] fix: a shapefile column holds the values of all
 features, not just those of the type of the first

---
 karta/vector/_shp.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index beed555..839b81e 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -286,6 +286,23 @@ def infer_field_type(objs, key, max_iter=100):
         except TypeError:
             pass
         i += 1
+
+    # widen a numeric type that can't hold the values of the other features
+    if typ in (ogr.OFTInteger, ogr.OFTReal):
+        for obj in objs[i:]:
+            value = obj["properties"][key]
+            try:
+                other, width = ogr_get_fieldtype(value)
+            except TypeError:
+                continue
+            if other == ogr.OFTString:
+                return other, width
+            elif typ == ogr.OFTReal:
+                continue
+            elif other == ogr.OFTReal:
+                typ = other
+            elif other == ogr.OFTInteger and not -2**31 <= value < 2**31:
+                typ = getattr(ogr, "OFTInteger64", ogr.OFTReal)
     return typ, default_width
 
 def ogr_write_feature(lyr, gi, id=0, key_mapping=None):
-- 
2.43.0


From 05384421b4b211f8ed44beab1f73fc14b9102335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:17 +0000
Subject: [PATCH 45/65] fix: text attributes in shapefiles aren't limited to
 Latin-1 characters

---
 karta/vector/_shp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index 839b81e..f405dfc 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -235,7 +235,7 @@ def fill_datasource(ds, fnm, *objs):
     geo_t = get_geometry_type(objs[0])
     ogr_t = OGRTYPES[geo_t]
     layer_name = os.path.splitext(os.path.split(fnm)[1])[0]
-    lyr = ds.CreateLayer(layer_name, srs, ogr_t)
+    lyr = ds.CreateLayer(layer_name, srs, ogr_t, ["ENCODING=UTF-8"])
     if lyr is None:
         raise ValueError("failure creating ogr.Layer within ogr.DataSource")
 
-- 
2.43.0


From 607baabe9e2d763a38869d64c957e9d07e7903c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:20 +0000
Subject: [PATCH 46/65] fix: writing a shapefile crashed the process if the
 .cpg file couldn't be created

GDAL doesn't check whether it can open the .cpg file, so leave the encoding to
OGR (LDID/0 means text isn't converted from UTF-8), and write the .cpg file
here.
---
 karta/vector/_shp.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index f405dfc..7fc5108 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -197,6 +197,13 @@ def ogr_write(fnm, *objs):
         fill_datasource(ds, fnm, *objs)
     finally:
         close_datasource(ds)
+
+    # OGR would write this file itself, without checking that it can be opened
+    stem, ext = os.path.splitext(fnm)
+    if ext == "":
+        stem = os.path.join(fnm, os.path.basename(fnm))
+    with open(stem + ".cpg", "w") as f:
+        f.write("UTF-8")
     return
 
 def close_datasource(ds):
@@ -235,7 +242,7 @@ def fill_datasource(ds, fnm, *objs):
     geo_t = get_geometry_type(objs[0])
     ogr_t = OGRTYPES[geo_t]
     layer_name = os.path.splitext(os.path.split(fnm)[1])[0]
-    lyr = ds.CreateLayer(layer_name, srs, ogr_t, ["ENCODING=UTF-8"])
+    lyr = ds.CreateLayer(layer_name, srs, ogr_t, ["ENCODING=LDID/0"])
     if lyr is None:
         raise ValueError("failure creating ogr.Layer within ogr.DataSource")
 
-- 
2.43.0


From 3decf85767fac76b4548b7e50ef6b873460b7450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:20 +0000
Subject: [PATCH 47/65] fix: shapefiles with spherical geographical coordinates
 couldn't be read

---
 karta/vector/read.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karta/vector/read.py b/karta/vector/read.py
index 1971d22..bb21c63 100644
--- a/karta/vector/read.py
+++ b/karta/vector/read.py
@@ -199,8 +199,9 @@ def ogr_parse_srs(lyr):
     else:
         name = srs.GetAttrValue('PROJCS')
         if srs.IsGeographic():
+            invf = srs.GetInvFlattening()       # zero for a sphere
             spheroid = "+a={a} +f={f}".format(a=srs.GetSemiMajor(),
-                                              f=1.0/srs.GetInvFlattening())
+                                              f=1.0/invf if invf != 0 else 0.0)
             crs = GeographicalCRS(spheroid, name)
         else:
             crs = ProjectedCRS(srs.ExportToProj4(), name=name)
-- 
2.43.0


From 003e5e237f47bbd7c8751b0fa3b582f4ab3a5111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:20 +0000
Subject: [PATCH 48/65] fix: slices running to the first vertex returned other
 vertices, or memory outside of the geometry

CoordString.slice takes a stop of zero for the end of the coordinates, and
doesn't handle negative strides reaching the start.
---
 karta/vector/geometry.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index dc95755..4e13aef 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -331,6 +331,12 @@ class Point(Geometry, Rotatable, GeoJSONOutMixin, ShapefileOutMixin):
             vertex = (self.x+shift_vector[0], self.y+shift_vector[1], self.z)
         return Point(vertex, properties=self.properties, crs=self.crs)
 
+def _slice_vertices(vertices, key):
+    """ Return the vertices selected by a slice. """
+    if len(range(*key.indices(len(vertices)))) == 0:
+        return CoordString([])
+    return CoordString(vertices.asarray()[key])
+
 class MultiVertexBase(Geometry):
 
     def __init__(self, vertices, ring=False, **kwargs):
@@ -376,8 +382,7 @@ class MultiVertexBase(Geometry):
         if isinstance(key, (int, np.int64)):
             return Point(self._vertices[key], properties=self.properties, crs=self.crs)
         elif isinstance(key, slice):
-            start, stop, stride = key.indices(len(self._vertices))
-            verts = self._vertices.slice(start, stop, stride)
+            verts = _slice_vertices(self._vertices, key)
             return type(self)(verts, properties=self.properties, crs=self.crs)
         else:
             raise KeyError('index must be integer or slice object')
@@ -1002,7 +1007,7 @@ class Polygon(MultiVertexBase, Rotatable, ConnectedMultiVertexMixin, GeoJSONOutM
         if isinstance(key, slice):
             start, stop, stride = key.indices(len(self._vertices))
             if len(self) != ((stop - start) // stride):
-                return Line(self._vertices.slice(start, stop, stride),
+                return Line(_slice_vertices(self._vertices, key),
                             properties=self.properties,
                             crs=self.crs)
         return super(Polygon, self).__getitem__(key)
@@ -1275,8 +1280,7 @@ class Multipoint(Multipart, Rotatable, MultiVertexMixin, GeoJSONOutMixin, Shapef
             p.update(self.properties)
             return Point(self._vertices[key], properties=p, crs=self.crs)
         elif isinstance(key, slice):
-            start, stop, stride = key.indices(len(self._vertices))
-            return Multipoint(self._vertices.slice(start, stop, stride),
+            return Multipoint(_slice_vertices(self._vertices, key),
                               properties=self.properties,
                               data=self.d[key], crs=self.crs)
         else:
-- 
2.43.0


From 7e851fb965c54a698731a6e5934301e1ef33f69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:21 +0000
Subject: [PATCH 49/65] fix: polygons from Line.to_polygon, from items of a
 Multipolygon and from slices weren't closed

Their contains method raised TypeError, and segments and lengths left out the
last side.
---
 karta/vector/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 4e13aef..5595d12 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -343,6 +343,8 @@ class MultiVertexBase(Geometry):
         super(MultiVertexBase, self).__init__(**kwargs)
 
         if isinstance(vertices, CoordString):
+            if bool(vertices.ring) != ring:
+                vertices = CoordString(vertices.asarray(), ring=ring)
             self._vertices = vertices
             return
 
-- 
2.43.0


From 77b31f186911cc41cefe590a259b6180d5efe1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:21 +0000
Subject: [PATCH 50/65] fix: Polygon.to_line raised TypeError

---
 karta/vector/geometry.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 5595d12..0eb0921 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1183,8 +1183,7 @@ class Polygon(MultiVertexBase, Rotatable, ConnectedMultiVertexMixin, GeoJSONOutM
 
     def to_line(self):
         """ Returns a self-closing polyline. Discards sub-polygons. """
-        v = self._vertices + self._vertices[0]
-        return Line(v, properties=self.properties, crs=self.crs)
+        return Line(self.vertices_ring, properties=self.properties, crs=self.crs)
 
 class Multipart(Geometry):
     """ Base for objects consisting of multiple singular types. """
-- 
2.43.0


From 28c6c03b13cd5508ec10eaf086567cdd847edd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:21 +0000
Subject: [PATCH 51/65] fix: merging polygons of two and three dimensions
 raised NameError

---
 karta/vector/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 0eb0921..cb084d7 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1775,7 +1775,7 @@ class Multipolygon(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
         rankmax = max(arr.shape[1] for arr in itertools.chain(*vertices))
         if rankmin != rankmax:
             for i, v in enumerate(vertices):
-                vertices[i] = [ring[:,:imin] for ring in vertices]
+                vertices[i] = [ring[:,:rankmin] for ring in v]
 
         data = table.merge(mappings)
         return Multipolygon(vertices, data=data, crs=crs)
-- 
2.43.0


From 4bdb9bd7a0b7af2b9203b817bbc0e82c531762d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:21 +0000
Subject: [PATCH 52/65] fix: assigning coordinates of the wrong length to a
 Multipoint item lost its data

---
 karta/vector/geometry.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index cb084d7..2719579 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1298,10 +1298,12 @@ class Multipoint(Multipart, Rotatable, MultiVertexMixin, GeoJSONOutMixin, Shapef
                     row.append(value.properties.get(field, None))
                 self.data[key] = tuple(row)
             else:
-                if len(value) == len(self._vertices[0]):
-                    verts = self._vertices.asarray()
-                    verts[key] = value
-                    self._vertices = CoordString(verts)
+                if len(value) != len(self._vertices[0]):
+                    raise ValueError("expected {0} coordinates".format(
+                                     len(self._vertices[0])))
+                verts = self._vertices.asarray()
+                verts[key] = value
+                self._vertices = CoordString(verts)
                 self.data[key] = tuple(None for _ in self.data.fields)
             self._cache = {}
             if hasattr(self, "quadtree"):
-- 
2.43.0


From cd38e1b68be846455f93af2122f2be38c69d4832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:41 +0000
Subject: [PATCH 53/65] fix: intersects() didn't end on geometries in which a
 segment occurs twice

---
 karta/vector/intersection.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karta/vector/intersection.pyx b/karta/vector/intersection.pyx
index e4947c1..b42e935 100644
--- a/karta/vector/intersection.pyx
+++ b/karta/vector/intersection.pyx
@@ -178,7 +178,8 @@ class SweepLinePlaceholder(object):
 
     def rightof(self, tuple item):
         cdef int idx
-        idx = self.queue.index(item)
+        # the last one, where several segments are equal
+        idx = len(self.queue) - 1 - self.queue[::-1].index(item)
         if idx == len(self.queue) - 1:
             return None
         else:
-- 
2.43.0


From 411788637ef7b0b022776512cd3c934b7873c1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:25 +0000
Subject: [PATCH 54/65] fix: an ellipsoid without flattening in a proj.4 string
 is a sphere, not a division by zero

---
 karta/crs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/karta/crs.py b/karta/crs.py
index 6fe55ce..a230d5b 100644
--- a/karta/crs.py
+++ b/karta/crs.py
@@ -298,7 +298,7 @@ class ProjectedCRS(CartesianCRS):
         return pyproj.transform(self._proj, other._proj, x, y, z=z)
 
 def parse_ellipsoid(projstring):
-    ename, ela, elb, elrf = None, None, None, None
+    ename, ela, elb, elf, elrf = None, None, None, None, None
     if "+ellps" in projstring:
         for kv in projstring.split():
             if kv.startswith("+ellps"):
@@ -323,12 +323,12 @@ def parse_ellipsoid(projstring):
                 elb = float(elb)
             elif kv.startswith("+f"):
                 _, elf = kv.split("=")
-                elrf = 1.0/float(elf)
-            if ela and (elb or elrf):
+                elf = float(elf)
+            if ela and (elb is not None or elf is not None):
                 break
     else:
         raise errors.CRSError("ellipsoid could not be extracted from %s" % projstring)
-    return Ellipsoid(ename, ela, b=elb, rf=elrf)
+    return Ellipsoid(ename, ela, b=elb, f=elf, rf=elrf)
 
 
 def crs_from_wkt(wkt):
-- 
2.43.0


From fb2dfe0fcb03fcf2c1e5d2ae9751e634f22538d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:25 +0000
Subject: [PATCH 55/65] fix: read_geojson takes only lists as per-part data,
 not text that happens to have as many characters

---
 karta/vector/read.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/karta/vector/read.py b/karta/vector/read.py
index bb21c63..58c1ca7 100644
--- a/karta/vector/read.py
+++ b/karta/vector/read.py
@@ -109,12 +109,9 @@ def read_geojson(f, crs=LonLatWGS84):
                                       picogeojson.MultiPolygon)):
             n = len(feat.geometry.coordinates)
             for k, v in feat.properties.items():
-                try:
-                    if len(v) == n:
-                        data[k] = v
-                    else:
-                        properties[k] = v
-                except TypeError:
+                if isinstance(v, (list, tuple)) and len(v) == n:
+                    data[k] = v
+                else:
                     properties[k] = v
         else:
             properties.update(feat.properties)
-- 
2.43.0


From 11aeabdd76cc21296a211dc583881cc9228c22fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:26 +0000
Subject: [PATCH 56/65] fix: shapefile attributes given as numpy scalars are
 written instead of raising TypeError

---
 karta/vector/_shp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index 7fc5108..1119ddf 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -324,7 +324,10 @@ def ogr_write_feature(lyr, gi, id=0, key_mapping=None):
     for i in range(1, layer_def.GetFieldCount()):
         attr_name = layer_def.GetFieldDefn(i).GetNameRef()
         key_name = key_mapping.get(attr_name, attr_name)
-        feature.SetField(attr_name, gi["properties"][key_name])
+        value = gi["properties"][key_name]
+        if _isnumpytype(value):
+            value = value.item()        # OGR takes only builtin types
+        feature.SetField(attr_name, value)
 
     if gi["geometry"]["type"] == "Point":
         geom = ogr_asPoint(gi["geometry"])
-- 
2.43.0


From 4a73f4f5f26f55c5dfbf3a3a5fe0f5766c89d9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:18 +0000
Subject: [PATCH 57/65] fix: reading a shapefile whose .dbf or .prj can't be
 read raises instead of dropping the attributes or assuming WGS84

---
 karta/vector/read.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/karta/vector/read.py b/karta/vector/read.py
index 58c1ca7..3bf6af8 100644
--- a/karta/vector/read.py
+++ b/karta/vector/read.py
@@ -168,6 +168,14 @@ def ogr_read_shapefile(stem):
     ds = driver.Open(fnms["shp"], 0)
     layer = ds.GetLayer()
 
+    # OGR ignores these files if it can't make sense of them
+    stem = fnms["shp"][:-4]
+    if os.path.isfile(stem + ".dbf") and \
+            layer.GetLayerDefn().GetFieldCount() == 0:
+        raise IOError("no attributes can be read from {0}.dbf".format(stem))
+    if os.path.isfile(stem + ".prj") and layer.GetSpatialRef() is None:
+        raise IOError("no coordinate system can be read from {0}.prj".format(stem))
+
     try:
         _geoms = [_from_shape(gi, p)
                  for (gi,p) in zip(shp.ogr_read_geometries(layer),
-- 
2.43.0


From e2ac611efa300d168e8ff2fc03aee7fde894eadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:18 +0000
Subject: [PATCH 58/65] fix: write_shapefile appends the extension, like
 to_shapefile and read_shapefile, instead of creating a directory

---
 karta/vector/_shp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index 1119ddf..46d7e2f 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -409,9 +409,9 @@ def _isnumpyfloat(o):
 def _isnumpytype(o):
     return hasattr(o, "dtype")
 
-write_shapefile = ogr_write
-
 def write_shapefile(fnm, *geometries):
+    if not fnm.endswith(".shp"):
+        fnm = fnm + ".shp"
     return ogr_write(fnm, *[g.__geo_interface__ for g in geometries])
 
 class ShapefileOutMixin(object):
-- 
2.43.0


From 143ac012c15a4ddee009e68a514193ba6948ac46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:18 +0000
Subject: [PATCH 59/65] fix: reading a GeoTIFF cut within its table of blocks
 raises instead of returning other bytes of the file

---
 karta/raster/_gdal.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index 60dd93b..dde1244 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -193,6 +193,11 @@ def read(fnm, in_memory, ibands=ALL, bandclass=CompressedBand):
 
         max_dtype = 0
         rasterbands = [dataset.GetRasterBand(i) for i in ibands]
+        for rb in rasterbands:
+            # In a file cut within its table of blocks, GDAL takes the blocks to
+            # be at the beginning of the file
+            if rb.GetMetadataItem("BLOCK_OFFSET_0_0", "TIFF") == "0":
+                raise IOError("{0} is damaged".format(fnm))
         hdr["nodata"] = rasterbands[0].GetNoDataValue()
         nx = rasterbands[0].XSize
         ny = rasterbands[0].YSize
-- 
2.43.0


From 58712e951289897f8fe3756933f445f8c9ecef6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:55 +0000
Subject: [PATCH 60/65] fix: resize to a box without data gives nodata cells
 with any band class, instead of raising with some

---
 karta/raster/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index c5fc62b..aa1d6d3 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -612,7 +612,8 @@ class RegularGrid(Grid):
                 bndcls = BAND_CLASS_DEFAULT
             newband = bndcls((nynew, nxnew), dtype=np.dtype(band.dtype).type,
                              initval=self.nodata)
-            newband.setblock(i0new, j0new, band.getblock(i0, j0, i1-i0, j1-j0))
+            if i1 > i0 and j1 > j0:
+                newband.setblock(i0new, j0new, band.getblock(i0, j0, i1-i0, j1-j0))
             newbands.append(newband)
 
         gridnew = RegularGrid(Tnew, bands=newbands, crs=self.crs,
-- 
2.43.0


From fb553b8618ddb987f65673af64eb6f844937f3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:53 +0000
Subject: [PATCH 61/65] fix: features with an attribute called id, like those
 read from a shapefile, can be written to a shapefile instead of raising
 KeyError

---
 karta/vector/_shp.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index 46d7e2f..8e967ac 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -246,15 +246,12 @@ def fill_datasource(ds, fnm, *objs):
     if lyr is None:
         raise ValueError("failure creating ogr.Layer within ogr.DataSource")
 
-    # add attribute table, reserving the first column for 'id'
-    idfield = ogr.FieldDefn("id", ogr.OFTInteger)
-    lyr.CreateField(idfield)
-
     keys = set.intersection(*[set(obj["properties"].keys()) for obj in objs])
     keys = [k for k in keys if not k.startswith("_karta")]
 
     # Get field types
     key_mapping = {}
+    fields = []
 
     for k in keys:
 
@@ -272,11 +269,18 @@ def fill_datasource(ds, fnm, *objs):
             fd.SetWidth(default_width)
             if typ == ogr.OFTReal:
                 fd.SetPrecision(15)
-            lyr.CreateField(fd)
+            fields.append(fd)
             key_mapping[dbase_key] = k
         else:
             warnings.warn("appropriate DBF type for {} not found - skipping".format(k))
 
+    # add attribute table, reserving the first column for 'id' unless the
+    # features have such an attribute
+    if "ID" not in key_mapping:
+        fields.insert(0, ogr.FieldDefn("id", ogr.OFTInteger))
+    for fd in fields:
+        lyr.CreateField(fd)
+
     # add geometries
     for i, obj in enumerate(objs):
         ogr_write_feature(lyr, obj, id=i, key_mapping=key_mapping)
@@ -320,9 +324,11 @@ def ogr_write_feature(lyr, gi, id=0, key_mapping=None):
 
     layer_def = lyr.GetLayerDefn()
     feature = ogr.Feature(layer_def)
-    feature.SetField("id", id)
-    for i in range(1, layer_def.GetFieldCount()):
+    for i in range(layer_def.GetFieldCount()):
         attr_name = layer_def.GetFieldDefn(i).GetNameRef()
+        if attr_name == "id":
+            feature.SetField("id", id)
+            continue
         key_name = key_mapping.get(attr_name, attr_name)
         value = gi["properties"][key_name]
         if _isnumpytype(value):
-- 
2.43.0


From ebe425f7f985e77b189687ce77bfbd59dcaa76f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:53 +0000
Subject: [PATCH 62/65] fix: holes of polygons read from a shapefile have the
 polygon's coordinate system, so that such polygons can be queried and
 serialised

---
 karta/vector/read.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karta/vector/read.py b/karta/vector/read.py
index 3bf6af8..3bb38db 100644
--- a/karta/vector/read.py
+++ b/karta/vector/read.py
@@ -192,6 +192,8 @@ def ogr_read_shapefile(stem):
             geoms.append(g)
         elif g is not None:
             g.crs = crs
+            for sub in getattr(g, "subs", ()):
+                sub.crs = crs
             geoms.append(g)
     return geoms
 
-- 
2.43.0


From 5e06c6c0b4b95e5d26c1fde1fd73d319b16b836c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:06 +0000
Subject: [PATCH 63/65] fix: the CRS of a GeoTIFF or shapefile that is read
 keeps the file's datum, instead of always being given WGS84

---
 karta/crs.py         | 7 +++++++
 karta/raster/read.py | 8 +++++---
 karta/vector/read.py | 5 +++--
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/karta/crs.py b/karta/crs.py
index a230d5b..f598309 100644
--- a/karta/crs.py
+++ b/karta/crs.py
@@ -331,6 +331,13 @@ def parse_ellipsoid(projstring):
     return Ellipsoid(ename, ela, b=elb, f=elf, rf=elrf)
 
 
+def proj4_datum(projstring):
+    """ Return the datum argument of a proj.4 string, or an empty string. """
+    for kv in projstring.split():
+        if kv.startswith("+datum="):
+            return kv
+    return ""
+
 def crs_from_wkt(wkt):
     srs = osgeo.osr.SpatialReference(wkt)
     srs.MorphFromESRI()     # munge parameters for proj.4 export
diff --git a/karta/raster/read.py b/karta/raster/read.py
index 932d7f2..fd12feb 100644
--- a/karta/raster/read.py
+++ b/karta/raster/read.py
@@ -1,7 +1,7 @@
 """ Functions for reading raster data sources as RegularGrid objects """
 import numpy as np
 from .grid import RegularGrid
-from ..crs import ProjectedCRS, GeographicalCRS, Cartesian
+from ..crs import ProjectedCRS, GeographicalCRS, Cartesian, proj4_datum
 from . import _gdal
 from . import _aai
 from ..errors import GridError
@@ -56,7 +56,8 @@ def read_geotiff(fnm, in_memory=True, ibands=_gdal.ALL, **kw):
     elif proj4_isgeodetic(hdr["srs"]["proj4"]):
         geodstr = "+a={a} +f={f}".format(a=hdr["srs"]["semimajor"],
                                          f=hdr["srs"]["flattening"])
-        crs = GeographicalCRS(geodstr, name=hdr["srs"]["name"])
+        crs = GeographicalCRS(geodstr, name=hdr["srs"]["name"],
+                              datum=proj4_datum(hdr["srs"]["proj4"]))
     else:
         crs = ProjectedCRS(hdr["srs"]["proj4"], name=hdr["srs"]["name"])
     return RegularGrid(t, bands=bands, crs=crs, nodata_value=hdr["nodata"])
@@ -108,7 +109,8 @@ def from_geotiffs(*fnms, **kw):
     elif proj4_isgeodetic(hdr["srs"]["proj4"]):
         geodstr = "+a={a} +f={f}".format(a=hdr["srs"]["semimajor"],
                                          f=hdr["srs"]["flattening"])
-        crs = GeographicalCRS(geodstr, name=hdr["srs"]["name"])
+        crs = GeographicalCRS(geodstr, name=hdr["srs"]["name"],
+                              datum=proj4_datum(hdr["srs"]["proj4"]))
     else:
         crs = ProjectedCRS(hdr["srs"]["proj4"], name=hdr["srs"]["name"])
     return RegularGrid(t, bands=bands, crs=crs, nodata_value=hdr["nodata"])
diff --git a/karta/vector/read.py b/karta/vector/read.py
index 3bb38db..6b9b088 100644
--- a/karta/vector/read.py
+++ b/karta/vector/read.py
@@ -10,7 +10,7 @@ import picogeojson
 from . import geometry
 from . import _shp as shp
 from . import _gpx as gpx
-from ..crs import GeographicalCRS, ProjectedCRS, LonLatWGS84
+from ..crs import GeographicalCRS, ProjectedCRS, LonLatWGS84, proj4_datum
 from .. import errors
 
 ### GeoInterface functions ###
@@ -209,7 +209,8 @@ def ogr_parse_srs(lyr):
             invf = srs.GetInvFlattening()       # zero for a sphere
             spheroid = "+a={a} +f={f}".format(a=srs.GetSemiMajor(),
                                               f=1.0/invf if invf != 0 else 0.0)
-            crs = GeographicalCRS(spheroid, name)
+            crs = GeographicalCRS(spheroid, name,
+                                  datum=proj4_datum(srs.ExportToProj4()))
         else:
             crs = ProjectedCRS(srs.ExportToProj4(), name=name)
     return crs
-- 
2.43.0


From 20127a7e9dffc0dd7a2a36f3a42994acb760abcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:31 +0000
Subject: [PATCH 64/65] fix: a polygon whose ring is closed already, like one
 read from GeoJSON, is written without another closing vertex

---
 karta/vector/geometry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 2719579..4313875 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1031,7 +1031,8 @@ class Polygon(MultiVertexBase, Rotatable, ConnectedMultiVertexMixin, GeoJSONOutM
         """ Return vertices as a closed ring """
         # inefficient implementation
         vertices = [xy for xy in self._vertices]
-        vertices.append(vertices[0])
+        if len(vertices) == 1 or vertices[0] != vertices[-1]:
+            vertices.append(vertices[0])
         return CoordString(vertices)
 
     @property
@@ -1790,7 +1791,8 @@ class Multipolygon(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
             rings = []
             for ring in poly:
                 xys = [xy for xy in ring]
-                xys.append(ring[0])
+                if len(xys) == 1 or xys[0] != xys[-1]:
+                    xys.append(ring[0])
                 rings.append(CoordString(xys))
             vertices.append(rings)
         return vertices
-- 
2.43.0


From f0a6764fc1f62459f683480a91e1509f48d44d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:47 +0000
Subject: [PATCH 65/65] fix: an empty element of a GPX file is read as an empty
 string, not as None, which was written as the text None

---
 karta/vector/_gpx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karta/vector/_gpx.py b/karta/vector/_gpx.py
index 63ffff6..7dd9349 100644
--- a/karta/vector/_gpx.py
+++ b/karta/vector/_gpx.py
@@ -65,7 +65,7 @@ class GPX(object):
         extensions = {}
         try:
             for ext in node.find(ns + "extensions"):
-                extensions[strip_namespace(ext.tag)] = ext.text
+                extensions[strip_namespace(ext.tag)] = ext.text or ""
         except TypeError:
             pass
         return extensions
@@ -76,7 +76,7 @@ class GPX(object):
         for subnode in node:
             tag = strip_namespace(subnode.tag)
             if tag not in exclude:
-                properties[tag] = subnode.text
+                properties[tag] = subnode.text or ""
         return properties
 
     def _readwpt(self, wpt):
-- 
2.43.0

