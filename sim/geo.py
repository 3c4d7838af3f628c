"""Generation of geometries and grids from a seeded generator.

Everything generated is a JSON specification (so that a replay file can hold
it); `build_*` turns a specification into a karta object through the public
constructors.
"""
import math

import numpy as np

import karta
import karta.crs as kcrs
from karta.raster import RegularGrid, SimpleBand, CompressedBand
from karta.vector.geometry import Point, Line, Polygon, Multipoint, Multiline, Multipolygon

from .rt import nprng

CRS = {"cart": kcrs.Cartesian, "wgs84": kcrs.LonLatWGS84, "sphere": kcrs.SphericalEarth,
       "nad83": kcrs.LonLatNAD83, "nad27": kcrs.LonLatNAD27, "web": kcrs.WebMercator,
       "nsidc": kcrs.NSIDCNorth, "ups": kcrs.UPSSouth, "laea": kcrs.LambertEqualArea,
       "gall": kcrs.GallPetersEqualArea,
       "ball": kcrs.GeographicalCRS("+a=6370997 +b=6370997", "ball", datum=""),
       "utm": kcrs.ProjectedCRS("+proj=utm +zone=33 +datum=WGS84 +units=m +no_defs", "UTM 33N")}
PROJECTED = ("web", "nsidc", "ups", "laea", "gall", "utm")

WORDS = ["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta", "iota", "kappa", "lam",
         "mu", "nu", "xi", "omicron", "pi", "rho", "sigma"]


# --------------------------------------------------------------- vectors

def _num(r, lo, hi):
    if r.random() < 0.3:
        return float(r.randint(int(lo), int(hi)))
    return round(r.uniform(lo, hi), r.choice([1, 3, 6, 12]))


def box(crs):
    """a region in which the coordinate system is well behaved"""
    if crs in ("wgs84", "sphere", "nad83", "nad27", "ball"):
        return (-170.0, -80.0, 170.0, 80.0)
    if crs == "nsidc":
        return (-2e6, -2e6, 2e6, 2e6)
    if crs == "ups":
        return (1e6, 1e6, 3e6, 3e6)
    if crs == "utm":
        return (2e5, 1e6, 8e5, 7e6)
    if crs in PROJECTED:
        return (-5e6, -5e6, 5e6, 5e6)
    return (-100.0, -100.0, 100.0, 100.0)


def ring(r, cx, cy, rad, n):
    """vertices of a star-shaped polygon around a center, random orientation"""
    ang = [(r.uniform(0, 0.3) + i) * 2 * math.pi / n for i in range(n)]
    pts = [[cx + rad * r.uniform(0.7, 1.0) * math.cos(a), cy + rad * r.uniform(0.7, 1.0) * math.sin(a)]
           for a in ang]
    return pts[::-1] if r.random() < 0.5 else pts


def cells(r, crs, n):
    """n disjoint cells of the region: (center, radius)"""
    x0, y0, x1, y1 = box(crs)
    k = max(2, int(math.ceil(math.sqrt(n))) + r.randint(0, 2))
    w, h = (x1 - x0) / k, (y1 - y0) / k
    ids = r.sample(range(k * k), n)
    return [(x0 + w * (i % k + 0.5), y0 + h * (i // k + 0.5), 0.45 * min(w, h)) for i in ids]


def props(r, n=None, rich=False):
    out = {}
    for k in r.sample(WORDS, r.randint(0, 4) if n is None else n):
        out[k] = propvalue(r, rich)
    return out


def propvalue(r, rich=False):
    c = r.randint(0, 8 if rich else 2)
    if c == 0:
        return r.randint(-10 ** 6, 10 ** 6)
    if c in (1, 8):
        return round(r.uniform(-1e4, 1e4), r.randint(0, 9))
    if c in (2, 7):
        return "".join(r.choice("abcdefgXYZ 0123_-/.") for _ in range(r.randint(1, 12))).strip() or "s"
    if c == 3:
        return None
    if c == 4:
        return r.random() < 0.5
    if c == 5:
        return "\u00e9\u4e2d<&>\"'" + str(r.randint(0, 99))
    return [r.randint(0, 9) for _ in range(r.randint(8, 11))]


def table(r, n, k=None):
    out = {}
    for name in r.sample(WORDS, r.randint(0, 4) if k is None else k):
        c = r.randint(0, 2)
        out[name] = [r.randint(-1000, 1000) if c == 0 else round(r.uniform(-100, 100), 3) if c == 1
                     else r.choice("pqrstu") + str(r.randint(0, 99)) for _ in range(n)]
    return out


TYPES = ("Point", "Line", "Polygon", "Multipoint", "Multiline", "Multipolygon")


def geom(r, typ=None, crs=None, z=None, rich=False, minv=2, maxv=8, nparts=None, holes=True, data=True):
    typ = typ or r.choice(TYPES)
    crs = crs or r.choice(["cart", "cart", "wgs84", "web", "nsidc", "laea"])
    z = (r.random() < 0.2) if z is None else z
    x0, y0, x1, y1 = box(crs)

    def pt():
        p = [_num(r, x0, x1), _num(r, y0, y1)]
        return p + [_num(r, -50, 50)] if z else p

    s = {"t": typ, "crs": crs, "p": props(r, rich=rich)}
    if typ == "Point":
        s["v"] = pt()
    elif typ == "Line":
        s["v"] = [pt() for _ in range(max(minv, r.randint(minv, maxv)))]
    elif typ == "Polygon":
        s.update(_poly(r, *cells(r, crs, 1)[0], holes=holes))
    elif typ == "Multipoint":
        n = nparts or r.randint(1, maxv)
        s["v"] = [pt() for _ in range(n)]
        s["d"] = table(r, n) if data else {}
    elif typ == "Multiline":
        n = nparts or r.randint(1, 4)
        s["v"] = [[pt() for _ in range(r.randint(2, maxv))] for _ in range(n)]
        s["d"] = table(r, n) if data else {}
    else:
        n = nparts or r.randint(1, 4)
        polys = [_poly(r, *c, holes=holes) for c in cells(r, crs, n)]
        s["v"] = [[p["v"]] + p["subs"] for p in polys]
        s["d"] = table(r, n) if data else {}
    if "d" in s:
        n = len(s["v"])
        # GeoJSON cannot tell a per-part list from a property of that length
        s["p"] = {k: v for k, v in s["p"].items()
                  if k not in s["d"] and not (isinstance(v, list) and len(v) == n)}
    return s


def _poly(r, cx, cy, rad, holes=True):
    n = r.randint(3, 8)
    s = {"v": ring(r, cx, cy, rad, n), "subs": []}
    if holes and n > 4 and r.random() < 0.6:
        n = r.randint(1, 2)
        for i in range(n):
            dx = 0 if n == 1 else (i - 0.5) * 0.4 * rad
            s["subs"].append(ring(r, cx + dx, cy, 0.17 * rad, r.randint(3, 5)))
    return s


def build_geom(s):
    crs = CRS[s["crs"]]
    p = dict(s.get("p", {}))
    t = s["t"]
    if t == "Point":
        return Point(tuple(s["v"]), properties=p, crs=crs)
    if t == "Line":
        return Line([tuple(v) for v in s["v"]], properties=p, crs=crs)
    if t == "Polygon":
        return Polygon([tuple(v) for v in s["v"]], properties=p, crs=crs,
                       subs=[Polygon([tuple(v) for v in h], properties=dict(q), crs=crs)
                             for h, q in zip(s.get("subs", []), s.get("subp") or [{}] * 99)])
    d = {k: list(v) for k, v in s.get("d", {}).items()}
    kw = dict(properties=p, crs=crs)
    if d:
        kw["data"] = d
    if s.get("noindex"):
        kw["build_index"] = False
    if t == "Multipoint":
        return Multipoint([tuple(v) for v in s["v"]], **kw)
    if t == "Multiline":
        return Multiline([[tuple(v) for v in part] for part in s["v"]], **kw)
    return Multipolygon([[[tuple(v) for v in rg] for rg in part] for part in s["v"]], **kw)


# --------------------------------------------------------------- grids

DTYPES = ("f8", "f4", "i2", "i4", "u1", "u2")


def grid(r, dtypes=DTYPES, maxn=12, maxbands=3, skew=True, crss=None, big=False):
    dt = r.choice(dtypes)
    ny, nx = r.randint(1, maxn), r.randint(1, maxn)
    if big:
        ny, nx = r.randint(1, big), r.randint(1, big)
    crs = r.choice(crss or ["web", "wgs84", "nsidc", "laea", "cart", "sphere"])
    x0, y0, x1, y1 = box(crs)
    d = (x1 - x0) / 400.0
    t = [_num(r, x0 / 2, x1 / 2), _num(r, y0 / 2, y1 / 2), round(r.uniform(0.1, 1) * d, 6),
         round(r.uniform(0.1, 1) * d, 6), 0.0, 0.0]
    if skew and r.random() < 0.3:
        t[4], t[5] = round(r.uniform(-0.3, 0.3) * d, 6), round(r.uniform(-0.3, 0.3) * d, 6)
    nd = None
    if r.random() < 0.5:
        nd = r.choice([0, 1, 200]) if dt in ("u1", "u2") else r.choice([-9999.0, 0.0, 1.5, 7.0]) \
            if dt in ("f8", "f4") else r.choice([-999, 0, 3])
    return {"ny": ny, "nx": nx, "nb": r.randint(1, maxbands), "dt": dt, "t": t, "crs": crs,
            "nodata": nd, "vs": r.randint(0, 2 ** 31), "kind": r.choice(["rand", "rand", "ramp", "const", "sparse", "levels"]),
            "bc": r.choice(["default", "simple", "compressed", "tiny"]),
            "chunk": [r.randint(1, 7), r.randint(1, 7)]}


def grid_values(s):
    """the (ny, nx, nb) array a grid specification stands for"""
    g = nprng(s["vs"])
    shape = (s["ny"], s["nx"], s["nb"])
    dt = np.dtype(s["dt"])
    if s["kind"] == "ramp":
        v = np.arange(np.prod(shape)).reshape(shape) % 251
    elif s["kind"] == "levels":
        # bands of very different magnitude
        top = [min(2 ** g.randint(1, 32) - 1, np.iinfo(dt).max if dt.kind in "iu" else 2 ** 24) for _ in range(s["nb"])]
        v = np.stack([g.randint(0, t + 1, size=shape[:2], dtype=np.int64) for t in top], axis=2)
    elif s["kind"] == "const":
        v = np.full(shape, g.randint(0, 200))
    elif s["kind"] == "extreme":
        # the ends of the type's range, infinities, signed zeroes, denormals
        if dt.kind in "iu":
            i = np.iinfo(dt if dt.itemsize < 8 else "i4")
            pool = np.array([i.min, i.max, 0, 1, i.max // 2], dtype=np.int64)
        else:
            i = np.finfo(dt)
            pool = np.array([i.min, i.max, i.tiny, i.tiny / 4, i.eps, 0.0, -0.0, np.inf, -np.inf, np.nan, 1 + i.eps])
        v = pool[g.randint(0, len(pool), size=shape)]
    elif dt.kind == "f":
        v = g.standard_normal(shape) * 10.0 ** g.randint(-3, 6)
    elif dt.kind == "c":
        v = g.standard_normal(shape) + 1j * g.standard_normal(shape)
    else:
        info = np.iinfo(dt) if dt.itemsize < 8 else np.iinfo("i4")
        v = g.randint(info.min, int(info.max) + 1, size=shape, dtype=np.int64)
    v = np.array(v).astype(dt)
    nd = s.get("nodata")
    if s["kind"] == "sparse" or s["kind"] == "rand":
        m = g.random_sample(shape) < 0.2
        if nd is not None:
            v[m] = nd
        elif dt.kind == "f":
            v[m] = np.nan
    return v


def bandclass(s):
    if s["bc"] == "simple":
        return SimpleBand
    if s["bc"] == "tiny":
        return tiny_band(tuple(s["chunk"]))
    if s["bc"] == "compressed":
        return CompressedBand
    return None


_TINY = {}


def tiny_band(chunk):
    """CompressedBand with another chunk size (a constructor argument), so that
    small grids have many chunks"""
    if chunk not in _TINY:
        class Tiny(CompressedBand):
            def __init__(self, size, dtype, chunksize=chunk, initval=0):
                CompressedBand.__init__(self, size, dtype, chunksize=chunksize, initval=initval)
        Tiny.__name__ = "Tiny%dx%d" % chunk
        _TINY[chunk] = Tiny
    return _TINY[chunk]


def build_grid(s, values=None):
    v = grid_values(s) if values is None else values
    if s["nb"] == 1 and s["vs"] % 2:
        v = v[:, :, 0]
    kw = {}
    bc = bandclass(s)
    if bc is not None:
        kw["bandclass"] = bc
    return RegularGrid(tuple(s["t"]), values=v, crs=CRS[s["crs"]], nodata_value=s.get("nodata"), **kw)


def shrink_grid(s):
    for k in ("ny", "nx", "nb"):
        if s[k] > 1:
            for v in {1, s[k] // 2, s[k] - 1}:
                if v >= 1 and v != s[k]:
                    yield dict(s, **{k: v})
    if s["t"][4] or s["t"][5]:
        yield dict(s, t=s["t"][:4] + [0.0, 0.0])
    if s["bc"] != "default":
        yield dict(s, bc="default")
    if s["kind"] != "ramp":
        yield dict(s, kind="ramp")
    if s["nodata"] is not None:
        yield dict(s, nodata=None)


def shrink_geom(s):
    if s.get("p"):
        for k in s["p"]:
            yield dict(s, p={a: b for a, b in s["p"].items() if a != k})
    if s.get("d"):
        for k in s["d"]:
            yield dict(s, d={a: b for a, b in s["d"].items() if a != k})
    if s["t"].startswith("Multi") and len(s["v"]) > 1:
        for i in range(len(s["v"])):
            yield dict(s, v=s["v"][:i] + s["v"][i + 1:],
                       d={k: v[:i] + v[i + 1:] for k, v in s.get("d", {}).items()})
    if s["t"] == "Line" and len(s["v"]) > 2:
        for i in range(len(s["v"])):
            yield dict(s, v=s["v"][:i] + s["v"][i + 1:])
    if s.get("subs"):
        yield dict(s, subs=s["subs"][1:])
