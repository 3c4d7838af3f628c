"""The file formats karta writes, behind one interface.

A format generates a document specification, writes it with karta's public
writers, reads it back with karta's public readers and says whether what was
read is the document. The expectation is computed from the specification,
never from karta's own output.
"""
import os

import numpy as np

import karta
from karta.raster import SimpleBand, CompressedBand, read_geotiff, from_geotiffs, read_aai
from karta.vector.read import read_geojson, read_shapefile, read_gpx_waypts, read_gpx_tracks
from karta.vector import write_shapefile
from karta.vector._gpx import GPX
from karta.vector.geometry import Point, Multipoint

from . import geo
from .rt import canon, first_diff, short


def close(a, b, rtol=1e-12, atol=0.0):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))))


_PROJ = {}


def lonlat(crsname, xy):
    """reference reprojection to WGS84 longitude and latitude, point by point"""
    import warnings
    import pyproj
    if crsname == "wgs84":
        return [list(p[:2]) for p in xy]
    out = []
    if crsname not in _PROJ:
        _PROJ[crsname] = pyproj.Transformer.from_proj(pyproj.Proj(geo.CRS[crsname].get_proj4()),
                                                      pyproj.Proj(geo.CRS["wgs84"].get_proj4()))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for p in xy:
            x, y = _PROJ[crsname].transform(float(p[0]), float(p[1]))
            out.append([float(x), float(y)])
    return out


def rings_equal(exp, got, rtol=1e-12, atol=0.0):
    """equality of rings up to the starting vertex, the direction and a repeated
    closing vertex"""
    def norm(rg):
        rg = [list(p[:2]) for p in rg]
        if len(rg) > 1 and rg[0] == rg[-1]:
            rg = rg[:-1]
        return rg
    a, b = norm(exp), norm(got)
    if len(a) != len(b):
        return False
    for cand in (b, b[::-1]):
        for i in range(len(cand)):
            if close(a, cand[i:] + cand[:i], rtol, atol):
                return True
    return False


def ringset_diff(exp, got, rtol=1e-12, atol=0.0):
    if len(exp) != len(got):
        return "%d rings, expected %d" % (len(got), len(exp))
    left = list(got)
    for e in exp:
        for k, g in enumerate(left):
            if rings_equal(e, g, rtol, atol):
                del left[k]
                break
        else:
            return "ring %s not found" % short(e)
    return None


class GeoTiff(object):
    name = "gtiff"
    ext = ".tif"

    def gen(self, r, small=False):
        s = geo.grid(r, dtypes=("f8", "f8", "f4", "i2", "i4", "u1", "u1", "u2", "c8", "i8"),
                     maxn=9 if small else 14, crss=["web", "wgs84", "nsidc", "laea", "cart", "nad83", "nad27", "gall", "ups", "ball", "utm"], big=(90 if r.random() < 0.15 and not small else False))
        if small == "large":
            s["ny"], s["nx"] = r.randint(50, 100), r.randint(50, 100)
        if not small and r.random() < 0.06:
            s["ny"], s["nx"] = r.randint(200, 1100), r.randint(1, 3)
            if r.random() < 0.3:
                s["ny"], s["nx"] = s["nx"], s["ny"]
        if r.random() < 0.08:
            s["nb"] = r.randint(4, 7)
        if r.random() < 0.08:
            s["t"][r.choice([2, 3])] *= -1
        if r.random() < 0.1:
            s["kind"] = "extreme"
        if r.random() < 0.2:
            s["nodata"] = r.choice({"f8": [-1.7976931348623157e308, 0.1, -9999.123456789, 1e-300, 12345678901.5],
                                    "f4": [-3.4028234663852886e38, 16777216.0, -0.5], "i2": [-32768, 32767], "u1": [255],
                                    "u2": [65535], "i4": [-2147483648, 2147483647]}.get(s["dt"], [None]))
        s["compress"] = r.choice([None, "LZW", "PACKBITS", "DEFLATE", "LZMA", "PACKBITS"])
        s["co"] = r.choice([{}, {}, {"TILED": "YES", "BLOCKXSIZE": 16, "BLOCKYSIZE": 16},
                            {"INTERLEAVE": "BAND"}, {"BIGTIFF": "YES"}])
        if s["dt"] == "c8":
            s["nodata"] = None
            s["kind"] = "ramp" if s["kind"] in ("sparse", "extreme") else s["kind"]
        s["rd"] = {"in_memory": r.random() < 0.75, "bc": r.choice([None, "simple", "compressed"]),
                   "ibands": r.choice(["all", "all", "one", "list"]), "pick": r.randint(0, 99),
                   "list": [r.randint(0, 99) for _ in range(r.randint(1, 4))],
                   "multi": r.choice([0, 0, 0, 0, 0, 0, 1, 2, 3])}
        return s

    def shrink(self, s):
        for c in geo.shrink_grid(s):
            yield c
        if s["co"]:
            yield dict(s, co={})
        if s["compress"]:
            yield dict(s, compress=None)

    def build(self, s):
        return geo.build_grid(s)

    def files(self, stem):
        return [stem + ".tif"]

    def write(self, obj, s, stem):
        kw = dict(s["co"])
        w = obj.to_geotiff if s["vs"] % 3 else obj.to_gtiff
        return w(stem + ".tif", compress=s["compress"], **kw)

    def read(self, s, stem):
        rd = s["rd"]
        kw = {}
        if rd["bc"]:
            kw["bandclass"] = SimpleBand if rd["bc"] == "simple" else CompressedBand
        if rd["multi"]:
            return from_geotiffs(*[stem + ".tif"] * int(rd["multi"]), in_memory=rd["in_memory"], **kw)
        if rd["ibands"] != "all":
            kw["ibands"] = [1 + i for i in self.picked(s)]
            if rd["ibands"] == "one":
                kw["ibands"] = kw["ibands"][0]
        return read_geotiff(stem + ".tif", in_memory=rd["in_memory"], **kw)

    def again(self, s, stem, got, to):
        """write what was read, and compare what that reads as. Reading is
        deferred, so that writing over the file takes the values from it"""
        g = read_geotiff(stem + ".tif", in_memory=False) if s["vs"] % 4 else read_geotiff(stem + ".tif")
        s = dict(s, rd={"in_memory": True, "bc": None, "ibands": "all", "multi": 0, "pick": 0, "list": []})
        g.to_geotiff(to + ".tif", compress=s["compress"], **s["co"])
        g = None
        return self.diff(s, self.read(s, to))

    def picked(self, s):
        rd = s["rd"]
        ib = rd["pick"] % s["nb"]
        if rd["multi"]:
            return [0] * int(rd["multi"])
        if rd["ibands"] == "one":
            return [ib]
        if rd["ibands"] == "list":
            return [i % s["nb"] for i in rd["list"]]
        return list(range(s["nb"]))

    def diff(self, s, got):
        exp = geo.grid_values(s)[:, :, self.picked(s)]
        if s["dt"] == "i8":
            exp = exp.astype("i4")
        if got.nbands != exp.shape[2]:
            return "%d bands, expected %d" % (got.nbands, exp.shape[2])
        if tuple(got.size) != exp.shape[:2]:
            return "size %r, expected %r" % (tuple(got.size), exp.shape[:2])
        v = np.array(got[:, :, :])
        if v.dtype != exp.dtype:
            return "dtype %s, expected %s" % (v.dtype, exp.dtype)
        a, b = canon(exp), canon(v)
        if a != b:
            bad = ~((exp == v) | ((exp != exp) & (v != v)))
            i = tuple(int(k) for k in np.argwhere(bad)[0])
            return "cell %r is %r, expected %r (%d cells differ)" % (i, v[i], exp[i], int(bad.sum()))
        if not close(got.transform, s["t"], 1e-12, 1e-12 * max(abs(x) for x in s["t"])):
            return "transform %r, expected %r" % (got.transform, s["t"])
        nd = s["nodata"]
        if nd is not None and not (got.nodata == nd):
            return "nodata %r, expected %r" % (got.nodata, nd)
        if nd is None and got.nodata is None:
            return "nodata lost"
        return self.crs_diff(s, got)

    def crs_diff(self, s, got):
        crs = geo.CRS[s["crs"]]
        if s["crs"] == "cart":
            return None if got.crs.get_proj4() == "" else "crs %s, expected Cartesian" % got.crs.get_proj4()
        if not hasattr(got.crs, "ellipsoid"):
            return "crs %r" % got.crs.name
        if not close([got.crs.ellipsoid.a, got.crs.ellipsoid.b], [crs.ellipsoid.a, crs.ellipsoid.b], 1e-9):
            return "ellipsoid %r %r, expected %r %r" % (got.crs.ellipsoid.a, got.crs.ellipsoid.b,
                                                      crs.ellipsoid.a, crs.ellipsoid.b)
        x0, y0, x1, y1 = geo.box(s["crs"])
        for fx, fy in ((0.3, 0.4), (0.6, 0.7)):
            x, y = x0 + fx * (x1 - x0), y0 + fy * (y1 - y0)
            a = crs.project(x, y, inverse=True)
            b = got.crs.project(x, y, inverse=True)
            if not close(a, b, 1e-9, 1e-9):
                return "crs %s maps (%g, %g) to %r, expected %r" % (got.crs.get_proj4(), x, y, b, a)
        return None


class AsciiGrid(object):
    name = "aai"
    ext = ".asc"

    def gen(self, r, small=False):
        s = geo.grid(r, dtypes=("f8", "f8", "f4", "i2", "i4"), maxbands=1, skew=False, crss=["cart"],
                     big=(60 if r.random() < 0.1 and not small else False))
        if small == "large":
            s["ny"], s["nx"] = r.randint(25, 60), r.randint(25, 60)
        s["t"][3] = s["t"][2]
        s["nodata"] = None
        s["ref"] = r.choice(["corner", "center"])
        s["ndv"] = r.choice([-9999, -9999, -12345, -32768])
        return s

    def shrink(self, s):
        return geo.shrink_grid(s)

    def build(self, s):
        return geo.build_grid(s)

    def files(self, stem):
        return [stem + ".asc"]

    def write(self, obj, s, stem):
        if s["vs"] % 4 == 0:
            f = open(stem + ".asc", "w+")
            try:
                return obj.to_aai(f, reference=s["ref"], nodata_value=s["ndv"])
            finally:
                f.close()
        return obj.to_aai(stem + ".asc", reference=s["ref"], nodata_value=s["ndv"])

    def read(self, s, stem):
        return read_aai(stem + ".asc")

    def again(self, s, stem, got, to):
        self.write(got, s, to)
        return self.diff(s, self.read(s, to))

    def diff(self, s, got):
        exp = geo.grid_values(s)[:, :, 0].astype("f8")
        exp[exp == s["ndv"]] = np.nan
        if tuple(got.size) != exp.shape:
            return "size %r, expected %r" % (tuple(got.size), exp.shape)
        v = np.array(got[:, :, 0])
        if canon(exp) != canon(v):
            bad = ~((exp == v) | ((exp != exp) & (v != v)))
            i = tuple(int(k) for k in np.argwhere(bad)[0])
            return "cell %r is %r, expected %r" % (i, v[i], exp[i])
        if not close(got.transform, s["t"], 1e-12, 1e-12 * max(abs(x) for x in s["t"])):
            return "transform %r, expected %r" % (got.transform, s["t"])
        return None


class Shapefile(object):
    name = "shp"
    ext = ".shp"

    def gen(self, r, small=False):
        typ = r.choice(geo.TYPES)
        crs = r.choice(["wgs84", "web", "nsidc", "laea", "nad83", "nad27", "gall", "ups", "ball", "utm"])
        n = r.randint(1, 4 if small else 7)
        if not small and r.random() < 0.1:
            n = r.choice([r.randint(40, 220), r.randint(102, 180)])
        if small == "large":
            n = r.randint(40, 150)
        gs = [geo.geom(r, typ, crs, z=False, maxv=6) for _ in range(n)]
        # the fields of a shapefile are those all features have
        keys = r.sample(geo.WORDS + ["longername1", "longername2", "longername33", "otherlongname", "Alpha", "BETA"], r.randint(0, 5))
        if r.random() < 0.12:
            keys += r.sample(["id", "ID", "fid", "shape", "Id2"], r.randint(1, 2))
        if r.random() < 0.12:
            # many names that are the same in their first ten letters
            keys = r.sample(["longernam", "longername", "longerNAMES", "longernam2", "longername3"] + ["longername_%d" % i for i in range(12)],
                            r.randint(3, 13))
        kinds = [r.choice(["int", "real", "text", "text", "i64", "mixed", "longtext", "unicode", "numtext", "late", "fine", "numpy"]) for _ in keys]
        gaps = [r.choice([0, 0, 0, 0.3, 0.8]) for _ in keys]
        late = r.randint(0, n - 1) if r.random() < 0.5 else n - 1
        if late > 50:       # the others have few digits
            gaps = [0 if k == "late" else g for k, g in zip(kinds, gaps)]
        for num, g in enumerate(gs):
            g["p"] = {}
            order = list(zip(keys, kinds, gaps))
            r.shuffle(order)
            for k, c, gap in order:
                if c == "late":     # the first values don't tell the type
                    c = "int" if num != late else r.choice(["real", "i64", "text"])
                g["p"][k] = None if r.random() < gap else self.value(r, c)
            if r.random() < 0.3:
                g["p"]["only%d" % r.randint(0, 9)] = 1
        return {"g": gs, "single": n == 1 and r.random() < 0.7, "ext": r.random() < 0.5, "rdext": r.random() < 0.5}

    def value(self, r, c):
        def text(n, chars):
            return r.choice("abcXYZ") + "".join(r.choice(chars) for _ in range(n)) + "z"
        if c == "mixed":
            c = r.choice(["int", "real", "i64"])
        if c == "numtext":
            c = r.choice(["int", "text", "real1"])
        if c == "fine":
            return round(r.uniform(-1, 1) * 10.0 ** r.randint(-6, 2), 15)
        if c == "numpy":
            return {"np": r.choice(["i4", "f8", "i2", "f4", "i8", "i1"]), "v": r.randint(-99, 99)}
        if c == "int":
            return r.choice([r.randint(-2 ** 31, 2 ** 31 - 1), r.randint(-9, 9)])
        if c == "i64":
            return r.randint(-2 ** 52, 2 ** 52)
        if c == "real":
            return round(r.uniform(-1e4, 1e4), r.randint(1, 10)) + 0.5
        if c == "real1":
            return r.randint(-99, 99) + 0.5
        if c == "text":
            return text(r.randint(0, 20), "abc XYZ019_-.")
        if c == "longtext":
            return text(r.randint(60, 178), "abc XYZ019_-.")
        return text(r.randint(0, 20), "a\u00e9\u4e2d\u0416 &")

    def shrink(self, s):
        if len(s["g"]) > 1:
            for i in range(len(s["g"])):
                yield dict(s, g=s["g"][:i] + s["g"][i + 1:], single=False)
        for i, g in enumerate(s["g"]):
            for k in geo.shrink_geom(g):
                yield dict(s, g=s["g"][:i] + [k] + s["g"][i + 1:])

    def build(self, s):
        out = [geo.build_geom(g) for g in s["g"]]
        for g in out:
            for k, v in g.properties.items():
                if isinstance(v, dict):
                    g.properties[k] = np.dtype(v["np"]).type(v["v"])
        return out

    def files(self, stem):
        return [stem + e for e in (".shp", ".shx", ".dbf", ".prj", ".cpg")]

    def write(self, obj, s, stem):
        if s["single"]:
            return obj[0].to_shapefile(stem + ".shp" if s["ext"] else stem)
        return write_shapefile(stem + ".shp" if s["ext"] else stem, *obj)

    def read(self, s, stem):
        return read_shapefile(stem + ".shp" if s["rdext"] else stem)

    def again(self, s, stem, got, to):
        for g in got:
            g.as_geojson()
        write_shapefile(to, *got)
        new = self.read(s, to)
        if len(new) != len(got):
            return "%d features, expected %d" % (len(new), len(got))
        for i, (a, b) in enumerate(zip(got, new)):
            d = self.geom_diff(s["g"][i], b)
            if d:
                return "feature %d: %s" % (i, d)
        kept = set.union(*[set(g.properties) for g in got])
        kept = {k for k in kept if any(g.properties.get(k) is not None for g in got)}
        have = {k.upper() for k in set.union(*[set(g.properties) for g in new])}
        for k in sorted(kept):
            if k.upper() not in have:
                return "no attribute %s" % k
            for i, (a, b) in enumerate(zip(got, new)):
                v = {n.upper(): x for n, x in b.properties.items()}[k.upper()]
                if not self.same(a.properties[k], v):
                    return "feature %d: attribute %s is %r, expected %r" % (i, k, v, a.properties[k])
        return GeoTiff.crs_diff(self, {"crs": s["g"][0]["crs"]}, new[0])

    def diff(self, s, got):
        if len(got) != len(s["g"]):
            return "%d features, expected %d" % (len(got), len(s["g"]))
        keys = set.intersection(*[set(g["p"]) for g in s["g"]])
        if s["g"][0]["t"] in ("Multiline", "Multipolygon"):
            keys = set()        # their features carry no attributes
        for i, (e, g) in enumerate(zip(s["g"], got)):
            d = self.geom_diff(e, g)
            if d:
                return "feature %d: %s" % (i, d)
            if "id" in g.properties and g.properties["id"] is not None and g.properties["id"] != i:
                return "feature %d: id is %r" % (i, g.properties["id"])
        d = self.attr_diff(keys, [g["p"] for g in s["g"]], [g.properties for g in got])
        if d:
            return d
        for g in got:
            for x in [g] + list(getattr(g, "subs", ())):
                if x.crs is not got[0].crs and x.crs.get_proj4() != got[0].crs.get_proj4():
                    return "coordinate systems differ"
        return GeoTiff.crs_diff(self, {"crs": s["g"][0]["crs"]}, got[0])

    def attr_diff(self, keys, exp, got):
        # columns without any value have no type and are left out
        keys = [k for k in sorted(keys) if any(e[k] is not None for e in exp)]
        cols = {}
        for k in keys:
            c = [e[k] for e in exp]
            if any(isinstance(v, str) for v in c):
                c = [None if v is None else str(v) for v in c]
            cols[k] = c
        have = set.union(*[set(p) for p in got]) - {"id"}
        seen = set(have)
        groups = {}
        for k in keys:
            groups.setdefault(k[:10].upper(), []).append(k)
        clash = any(len(v) > 1 for v in groups.values())
        for base in sorted(groups):
            # one has the name itself, names that clash with it are changed at their end
            m = min(8, max(1, len(base) - 2))
            names = sorted(h for h in have if h == base or clash and h[:m] == base[:m])
            if len(names) < len(groups[base]) or base not in seen:
                return "attributes %s read as %s" % (groups[base], names)
            left = list(names)
            for k in groups[base]:
                for K in left:
                    if all(self.same(a, p.get(K)) for a, p in zip(cols[k], got)):
                        left.remove(K)
                        have.remove(K)
                        break
                else:
                    i, b = next(((i, p.get(names[0])) for i, p in enumerate(got) if not self.same(cols[k][i], p.get(names[0]))), (0, None))
                    return "feature %d: attribute %s is %r, expected %r" % (i, k, b, cols[k][i])
        if have:
            return "unexpected attributes %s" % sorted(have)
        return None

    def same(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, dict):
            a = a["v"]
        if isinstance(a, str):
            return isinstance(b, str) and a == b
        return not isinstance(b, str) and close(a, b, 1e-14, 1e-15)

    def geom_diff(self, e, g):
        t = e["t"]
        single = {"Multiline": "Line", "Multipolygon": "Polygon"}
        types = [t]
        if t in single and len(e["v"]) == 1:
            types.append(single[t])
        if g._geotype not in types:
            return "read as %s, expected %s" % (g._geotype, t)
        if t == "Point":
            return None if close(e["v"][:2], g.vertex()[:2], 0, 0) else "vertex %r, expected %r" % (g.vertex(), e["v"])
        if t in ("Line", "Multipoint"):
            return None if close(e["v"], np.asarray(g.vertices())[:, :2], 0, 0) else "vertices differ"
        if t == "Multiline":
            parts = [g.vertices()] if g._geotype == "Line" else g.vertices()
            if len(parts) != len(e["v"]):
                return "%d parts, expected %d" % (len(parts), len(e["v"]))
            for a, b in zip(e["v"], parts):
                if not close(a, np.asarray(b)[:, :2], 0, 0):
                    return "part differs"
            return None
        if t == "Polygon":
            return ringset_diff([e["v"]] + e["subs"], poly_rings(g), 0, 0)
        polys = [poly_rings(g)] if g._geotype == "Polygon" else [[r_.tolist() for r_ in p] for p in g.vertices()]
        return multi_diff(e["v"], polys, 0, 0)


def poly_rings(g):
    return [g.vertices().tolist()] + [h.vertices().tolist() for h in g.subs]


def multi_diff(exp, polys, rtol, atol):
    if len(polys) != len(exp):
        return "%d polygons, expected %d" % (len(polys), len(exp))
    left = list(polys)
    for e in exp:
        for k, p in enumerate(left):
            if ringset_diff(e, p, rtol, atol) is None:
                del left[k]
                break
        else:
            return "polygon %s not found" % short(e)
    return None


class GeoJson(object):
    name = "geojson"
    ext = ".json"

    def gen(self, r, small=False):
        crs = r.choice(["wgs84", "wgs84", "web", "nsidc", "laea", "cart"])
        g = geo.geom(r, None, crs, rich=True, z=(False if crs != "wgs84" else None), maxv={False: 12, "large": 900}.get(small, 5),
                     minv=200 if small == "large" else 2)
        return {"g": g, "force": crs != "cart" and r.random() < 0.7, "indent": r.choice([None, None, 2]),
                "urn": r.choice([None, None, "urn:ogc:def:crs:EPSG::5806"]), "via": r.choice(["path", "path", "file"])}

    def shrink(self, s):
        for g in geo.shrink_geom(s["g"]):
            yield dict(s, g=g)
        if s["via"] != "path":
            yield dict(s, via="path")

    def build(self, s):
        return geo.build_geom(s["g"])

    def files(self, stem):
        return [stem + ".json"]

    def write(self, obj, s, stem):
        kw = dict(indent=s["indent"], urn=s["urn"], force_wgs84=s["force"])
        if s["via"] == "path":
            return obj.to_geojson(stem + ".json", **kw)
        f = open(stem + ".json", "w")
        try:
            return obj.to_geojson(f, **kw)
        finally:
            f.close()

    def read(self, s, stem):
        with open(stem + ".json") as f:
            crs = geo.CRS["wgs84"] if s["force"] else geo.CRS[s["g"]["crs"]]
            return read_geojson(f, crs=crs)

    def again(self, s, stem, got, to):
        self.write(got[0], dict(s, force=False), to)
        return self.diff(s, self.read(s, to))

    def diff(self, s, got):
        if not isinstance(got, list) or len(got) != 1:
            return "read %s" % short(got)
        g, e = got[0], s["g"]
        if any(x.crs is not g.crs for x in getattr(g, "subs", ())):
            return "a hole with another coordinate system"
        if g._geotype != e["t"]:
            return "read as %s, expected %s" % (g._geotype, e["t"])
        if canon(g.properties) != canon(e["p"]):
            return "properties %s, expected %s" % (short(g.properties), short(e["p"]))
        conv = s["force"] and e["crs"] != "wgs84"
        rt, at = (1e-9, 1e-9) if conv else (0, 0)

        def c(pts):
            return lonlat(e["crs"], pts) if conv else [list(map(float, p)) for p in pts]
        t = e["t"]
        if t == "Point":
            return None if close(c([e["v"]])[0], g.vertex(), rt, at) else "vertex %r, expected %r" % (g.vertex(), e["v"])
        if "d" in e:
            if set(g.data.fields) != set(e["d"]):
                return "data fields %r, expected %r" % (sorted(g.data.fields), sorted(e["d"]))
            for k in e["d"]:
                if canon(list(g.d[k])) != canon(e["d"][k]):
                    return "data %s is %s, expected %s" % (k, short(g.d[k]), short(e["d"][k]))
        if t in ("Line", "Multipoint"):
            return None if close(c(e["v"]), g.vertices(), rt, at) else "vertices %s, expected %s" % (
                short(g.vertices().tolist()), short(c(e["v"])))
        if t == "Multiline":
            if len(g) != len(e["v"]):
                return "%d parts, expected %d" % (len(g), len(e["v"]))
            for a, b in zip(e["v"], g.vertices()):
                if not close(c(a), b, rt, at):
                    return "part differs"
            return None
        if t == "Polygon":
            return ringset_diff([c(x) for x in [e["v"]] + e["subs"]], poly_rings(g), rt, at)
        return multi_diff([[c(x) for x in p] for p in e["v"]],
                          [[x.tolist() for x in p] for p in g.vertices()], rt, at)


class Gpx(object):
    name = "gpx"
    ext = ".gpx"
    KEYS = ["name", "ele", "time", "cmt", "desc", "sym"]
    EXT = ["speed", "hr", "power", "cad"]

    def gen(self, r, small=False):
        def txt():
            return r.choice([str(r.randint(0, 999)), "a b", "x<y&z", "\u00e9t\u00e9", "%.3f" % r.uniform(0, 99), "%.3f" % r.uniform(0, 99),
                             r.choice(["", " led", "two\nlines", "\"q\" 'p' ]]>", "\U0001f5fa", "&amp;"])])

        def pt():
            return [round(r.uniform(-179, 179), r.randint(1, 6)), round(r.uniform(-89, 89), r.randint(1, 6))]

        def ps(keys):
            m = r.choice([1, 3, 3, len(keys)])
            return {k: txt() for k in r.sample(keys, r.randint(0, min(m, len(keys))))}

        def mp(allkeys):
            n = r.choice([1, 2, 3, 4, 5, 5, r.randint(6, 40)]) if small != "large" else r.randint(40, 150)
            return {"v": [pt() for _ in range(n)], "p": ps(self.KEYS if not allkeys else self.KEYS + self.EXT),
                    "d": {k: [txt() for _ in range(n)] for k in r.sample(self.KEYS + (self.EXT if allkeys else []), r.randint(0, 3))}}
        return {"w": [{"v": pt(), "p": ps(self.KEYS + self.EXT)} for _ in range(r.randint(0, 4))],
                "t": [{"s": [mp(True) for _ in range(r.choice([1, 1, 2, 3]))], "a": ps(self.KEYS)} for _ in range(r.randint(0, 3))],
                "r": [mp(False) for _ in range(r.randint(0, 4))]}

    def shrink(self, s):
        for k in "wtr":
            for i in range(len(s[k])):
                yield dict(s, **{k: s[k][:i] + s[k][i + 1:]})

    def build(self, s):
        ll = geo.CRS["wgs84"]
        mk = lambda m: Multipoint([tuple(v) for v in m["v"]], properties=dict(m["p"]), crs=ll,
                                  **({"data": {k: list(v) for k, v in m["d"].items()}} if m["d"] else {}))
        return ([Point(tuple(w["v"]), properties=dict(w["p"]), crs=ll) for w in s["w"]],
                [[mk(m) for m in t["s"]] for t in s["t"]], [mk(m) for m in s["r"]])

    def files(self, stem):
        return [stem + ".gpx"]

    def write(self, obj, s, stem):
        if all(len(t["s"]) == 1 and not t["a"] for t in s["t"]):
            doc = GPX(waypoints=obj[0], tracks=[t[0] for t in obj[1]], routes=obj[2])
        else:
            doc = GPX(waypoints=obj[0])
            for t, o in zip(s["t"], obj[1]):
                doc.add_track(*o, **({"attributes": dict(t["a"])} if t["a"] else {}))
            for o in obj[2]:
                doc.add_route(o)
        return doc.writefile(stem + ".gpx")

    def read(self, s, stem):
        doc = GPX(stem + ".gpx")
        return (doc, read_gpx_waypts(stem + ".gpx"), read_gpx_tracks(stem + ".gpx"))

    def again(self, s, stem, got, to):
        got[0].writefile(to + ".gpx")
        return self.diff(s, self.read(s, to))

    def diff(self, s, got):
        def text(p):
            return {k: "" if v is None else v for k, v in p.items()}     # an empty element has no text

        doc, pts, lines = got
        if (len(doc.waypts), len(doc.tracks), len(doc.routes)) != (len(s["w"]), len(s["t"]), len(s["r"])):
            return "%d waypoints, %d tracks, %d routes" % (len(doc.waypts), len(doc.tracks), len(doc.routes))

        def split(p):
            return ({k: v for k, v in p.items() if k in self.KEYS}, {k: v for k, v in p.items() if k not in self.KEYS})

        for e, w, q in zip(s["w"], doc.waypts, pts):
            pr, ex = split(e["p"])
            if not close(e["v"], w.lonlat, 0, 5e-7) or text(w.properties) != pr or text(w.extensions) != ex:
                return "waypoint %r, expected %r" % (w, e)
            if not close(e["v"], q.vertex(), 0, 5e-7) or text(q.properties) != pr:
                return "waypoint point %r %r, expected %r" % (q, q.properties, e)
        for tr, t, ls in zip(s["t"], doc.tracks, lines):
            if len(t.trksegs) != len(tr["s"]) or len(ls) != len(tr["s"]):
                return "%d segments" % len(t.trksegs)
            if text(t.properties) != tr["a"]:
                return "track attributes %r, expected %r" % (t.properties, tr["a"])
            for e, seg, line in zip(tr["s"], t.trksegs, ls):
                pr, ex = split(e["p"])
                if text(seg.properties) != pr or text(seg.extensions) != ex:
                    return "segment %r %r, expected %r" % (seg.properties, seg.extensions, e["p"])
                d = self.points_diff(e, seg.trkpts, True)
                if d:
                    return d
                if not close(e["v"], line.vertices(), 0, 5e-7) or text(line.properties) != pr:
                    return "track line differs"
        for e, rt in zip(s["r"], doc.routes):
            if text(rt.properties) != e["p"]:
                return "route %r, expected %r" % (rt.properties, e["p"])
            d = self.points_diff(e, rt.rtepts, False)
            if d:
                return d
        return None

    def points_diff(self, e, pts, ext):
        if len(pts) != len(e["v"]):
            return "%d points, expected %d" % (len(pts), len(e["v"]))
        for i, p in enumerate(pts):
            row = {k: v[i] for k, v in e["d"].items()}
            have = {k: v or "" for k, v in p.properties.items()}
            if ext:
                have.update({k: v or "" for k, v in p.extensions.items()})
                if any(k not in self.KEYS for k in p.properties) or any(k in self.KEYS for k in p.extensions):
                    return "point %d: property and extension mixed up" % i
            if not close(e["v"][i], p.lonlat, 0, 5e-7) or have != row:
                return "point %d is %r %r, expected %r %r" % (i, p.lonlat, have, e["v"][i], row)
        return None


FORMATS = {f.name: f for f in (GeoTiff(), AsciiGrid(), Shapefile(), GeoJson(), Gpx())}
