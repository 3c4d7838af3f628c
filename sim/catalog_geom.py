"""Uses of a geometry through the public API that are not meant to change it,
each described by a JSON list [name, parameters...]. Operands are either
members of the world (shared objects) or made on the spot."""
import io

import numpy as np

from . import geo
from .rt import arg, canon, nprng
from karta.vector.geometry import Point, Multipoint, Line, Polygon, Multiline, Multipolygon, affine_matrix

CRSN = ["wgs84", "web", "nsidc", "laea", "cart", "nad83"]


def crsname(g):
    for k, v in geo.CRS.items():
        if v is g.crs:
            return k
    return "wgs84"


def xy(g, fx, fy):
    x0, y0, x1, y1 = geo.box(crsname(g))
    return (x0 + fx * (x1 - x0), y0 + fy * (y1 - y0))


def operand(g, W, s):
    """["w", i] | ["pt", fx, fy, crs or None] | ["poly"|"line"|"box", seed]"""
    if s[0] == "w":
        return W[s[1] % len(W)]
    if s[0] == "pt":
        if s[3] is None:
            return arg(Point(xy(g, s[1], s[2]), crs=g.crs))
        x0, y0, x1, y1 = geo.box(s[3])
        return arg(Point((x0 + s[1] * (x1 - x0), y0 + s[2] * (y1 - y0)), crs=geo.CRS[s[3]]))
    r = nprng(s[1])
    if s[0] == "line":
        n = r.randint(2, 5)
        return arg(Line([tuple(float(v) for v in xy(g, *r.random_sample(2))) for _ in range(n)], crs=g.crs))
    n = r.randint(3, 6)
    cx, cy, rad = r.uniform(0.3, 0.7), r.uniform(0.3, 0.7), r.uniform(0.1, 0.4)
    if s[0] == "box":
        a, b = xy(g, cx - rad, cy - rad), xy(g, cx + rad, cy + rad)
        b = [float(a[0]), float(a[1]), float(b[0]), float(b[1])]
        return arg(tuple(b) if s[1] % 2 else b)
    ang = np.sort(r.random_sample(n)) * 2 * np.pi
    return arg(Polygon([tuple(float(v) for v in xy(g, cx + rad * np.cos(a), cy + rad * np.sin(a))) for a in ang], crs=g.crs))


def o_pt(r):
    return ["pt", round(r.random(), 3), round(r.random(), 3), r.choice([None, None, "wgs84", "web"])]


def o_geom(r):
    return r.choice([["w", r.randint(0, 9)], ["line", r.randint(0, 10 ** 6)], ["poly", r.randint(0, 10 ** 6)]])


def o_poly(r):
    return ["poly", r.randint(0, 10 ** 6)]


def o_crs(r):
    return r.choice(CRSN + [None])


def crs(n):
    return None if n is None else geo.CRS[n]


def at(g, f):
    n = len(g)
    return min(int(f * n), n - 1)


def sl(g, a, b, st):
    n = len(g)
    i, j = sorted((int(a * n), int(round(b * n))))
    if st == 0:
        return slice(i, i)
    if st < 0:
        return slice(j - n - 1 if j else None, i - n - 1 if i else None, st)
    return slice(i, max(j, i + 1), st)


def idx(r):
    return [round(r.random(), 3)]


def rng3(r):
    return [r.choice([0.0, round(r.random(), 3)]), round(r.random(), 3), r.choice([1, 1, 1, 2, 3, -1, -1, -2, 0])]


def none(r):
    return []


def mat(seed):
    m = nprng(seed).standard_normal((2, 3))
    return arg(np.round(m, 3))


def q_rotate(g, W, th, s):
    o = operand(g, W, s)
    return g.rotate(th, origin=arg([o.x, o.y]))


def q_merge(g, W, s, same):
    t = {"Point": Multipoint, "Multipoint": Multipoint, "Line": Multiline, "Multiline": Multiline,
         "Polygon": Multipolygon, "Multipolygon": Multipolygon}[g._geotype]
    o = [operand(g, W, x) for x in s]
    fam = {Multipoint: ("Point", "Multipoint"), Multiline: ("Line", "Multiline"), Multipolygon: ("Polygon", "Multipolygon")}[t]
    o = [x for x in o if getattr(x, "_geotype", "") in fam]
    return t.merge(g, *o) if same else t.merge(*(o + [g]), crs=g.crs)


def q_parts(g, W):
    return [type(g)(arg(list(g)), crs=g.crs)] if hasattr(g, "data") else list(g)


def q_rebuild(g, W, own):
    """the same content in a new object; nothing given to a constructor changes"""
    kw = {"properties": g.properties if own else arg(dict(g.properties)), "crs": g.crs}
    if hasattr(g, "data"):
        kw["data"] = g.data if own else arg({n: list(g.data.getfield(n)) for n in g.data.fields})
    if g._geotype == "Polygon":
        kw["subs"] = g.subs if own else arg(list(g.subs))
    if g._geotype == "Point":
        return Point(arg(list(g.vertex())), **kw)
    v = g.vertices()
    if g._geotype in ("Multiline", "Multipolygon"):
        v = [[[tuple(p) for p in q] for q in part] if g._geotype == "Multipolygon" else [tuple(p) for p in part] for part in g.vertices()]
    elif not own:
        v = [list(p) for p in v]
    return type(g)(arg(v), **kw)


def q_geojson(g, W, indent, urn, force):
    return g.as_geojson(indent=indent, urn=urn, force_wgs84=force)


def q_togeojson(g, W, force):
    f = io.StringIO()
    g.to_geojson(f, force_wgs84=force)
    return f.getvalue()


def q_radius(g, W, s, k):
    p = operand(g, W, s)
    x0, y0, x1, y1 = geo.box(crsname(g))
    return g.within_radius(p, k * (x1 - x0))


def q_item(g, W, f):
    return g[at(g, f)]


def q_data(g, W, f, name):
    n = sorted(g.data.fields)
    i = at(g, f)
    return [g.d[i], g.d[0:i + 1], [g.d[k] for k in n], [g.data.get(i), len(g.data), sorted(g.data.fields)]]


def q_dfield(g, W, i):
    n = sorted(g.data.fields)
    return g.d[n[i % len(n)]]


def q_npoints(g, W, n):
    return g.to_npoints(n)


def q_points(g, W, k):
    return g.to_points(max(g.length / k, 1e-9))


def q_contains(g, W, f):
    return [g[at(g, f)] in g]


def q_eq(g, W, s):
    o = operand(g, W, s)
    return [bool(g == o), bool(g == g), hash(g) == hash(g)]


def q_affine(g, W, seed):
    return affine_matrix(g, g.apply_transform(mat(seed)))


ALL = ("Point", "Line", "Polygon", "Multipoint", "Multiline", "Multipolygon")
MV = ("Line", "Polygon", "Multipoint")
CON = ("Line", "Polygon")
MULTI = ("Multipoint", "Multiline", "Multipolygon")
MM = ("Multiline", "Multipolygon")
NP = ALL[1:]

Q = {
    "vertex": (("Point",), lambda r: [o_crs(r)], lambda g, W, c: g.vertex(crs=crs(c))),
    "azimuth": (("Point",), lambda r: [o_pt(r), r.random() < 0.7], lambda g, W, s, p: g.azimuth(operand(g, W, s), projected=p)),
    "distance": (("Point",), lambda r: [r.choice([o_pt(r), ["w", r.randint(0, 9)]]), r.random() < 0.7], lambda g, W, s, p: g.distance(operand(g, W, s), projected=p)),
    "walk": (("Point",), lambda r: [round(r.uniform(1, 1e4), 2), r.randint(-180, 180), r.random() < 0.7], lambda g, W, d, a, p: g.walk(d, a, projected=p)),
    "xyz": (("Point",), none, lambda g, W: [g.x, g.y, repr(g), g[0], g[1]]),
    "shift": (("Point",) + MV, lambda r: [r.randint(-9, 9), r.randint(-9, 9)], lambda g, W, a, b: g.shift(arg([a, b]))),
    "rotate": (("Point",) + MV, lambda r: [r.randint(-180, 180), ["pt", 0.4, 0.6, None]], q_rotate),
    "transform": (ALL, lambda r: [r.randint(0, 10 ** 6)], lambda g, W, s: g.apply_transform(mat(s))),
    "geojson": (ALL, lambda r: [r.choice([None, 2]), r.choice([None, None, "urn:x"]), r.random() < 0.6], q_geojson),
    "togeojson": (ALL, lambda r: [r.random() < 0.6], q_togeojson),
    "geointerface": (ALL, none, lambda g, W: [g.__geo_interface__, g.geomdict]),
    "eq": (ALL, lambda r: [["w", r.randint(0, 9)]], q_eq),
    "merge": (ALL, lambda r: [[["w", r.randint(0, 9)] for _ in range(r.randint(0, 2))], r.random() < 0.5], q_merge),
    "add": (("Point", "Line", "Polygon"), lambda r: [["w", r.randint(0, 9)]], lambda g, W, s: g + operand(g, W, s)),
    "coords": (NP, lambda r: [o_crs(r)], lambda g, W, c: g.coords(crs=crs(c))),
    "vertices": (NP, lambda r: [o_crs(r)], lambda g, W, c: g.vertices(crs=crs(c))),
    "dropz": (MV, lambda r: [o_crs(r)], lambda g, W, c: g.vertices(crs=crs(c), drop_z=True)),
    "bbox": (NP, lambda r: [o_crs(r), r.random() < 0.3], lambda g, W, c, bare: g.bbox() if bare else g.bbox(crs=crs(c))),
    "extent": (NP, lambda r: [o_crs(r), r.random() < 0.3], lambda g, W, c, bare: g.extent() if bare else g.extent(crs(c))),
    "flatdist": (MV, lambda r: [["pt", round(r.random(), 3), round(r.random(), 3), None]], lambda g, W, s: g.flat_distances_to(operand(g, W, s))),
    "dist": (MV, lambda r: [o_pt(r)], lambda g, W, s: g.distances_to(operand(g, W, s))),
    "nearestv": (MV, lambda r: [o_pt(r)], lambda g, W, s: g.nearest_vertex_to(operand(g, W, s))),
    "anywithin": (MV, lambda r: [o_poly(r)], lambda g, W, s: g.any_within_poly(operand(g, W, s))),
    "hull": (MV, none, lambda g, W: g.convex_hull()),
    "item": (NP, idx, q_item),
    "slice": (NP, rng3, lambda g, W, a, b, s: g[sl(g, a, b, s)]),
    "iter": (NP, none, lambda g, W: list(g)),
    "len": (NP, none, lambda g, W: [len(g), hash(str(g.crs.name))]),
    "hash": (("Point",) + MV, none, lambda g, W: hash(g) == hash(g)),
    "length": (("Line",), none, lambda g, W: g.length),
    "segments": (CON, none, lambda g, W: list(g.segments)),
    "segtuples": (CON, none, lambda g, W: list(g.segment_tuples)),
    "intersects": (CON, lambda r: [o_geom(r)], lambda g, W, s: g.intersects(operand(g, W, s))),
    "intersections": (CON, lambda r: [o_geom(r), r.random() < 0.5], lambda g, W, s, k: g.intersections(operand(g, W, s), keep_duplicates=k)),
    "shortest": (CON, lambda r: [o_pt(r)], lambda g, W, s: g.shortest_distance_to(operand(g, W, s))),
    "nearest": (CON, lambda r: [o_pt(r)], lambda g, W, s: g.nearest_on_boundary(operand(g, W, s))),
    "withindist": (CON, lambda r: [o_pt(r), round(10 ** r.uniform(0, 6), 2)], lambda g, W, s, d: g.within_distance(operand(g, W, s), d)),
    "dateline": (CON, none, lambda g, W: g.crosses_dateline()),
    "cumulength": (("Line",), none, lambda g, W: g.cumulength()),
    "points": (("Line",), lambda r: [r.choice([1.5, 2.2, 4.0])], q_points),
    "npoints": (("Line",), lambda r: [r.randint(2, 6)], q_npoints),
    "displacement": (("Line",), none, lambda g, W: g.displacement()),
    "topolygon": (("Line",), none, lambda g, W: g.to_polygon()),
    "ring": (("Polygon",), none, lambda g, W: g.vertices_ring.asarray()),
    "clockwise": (("Polygon",), none, lambda g, W: bool(g.isclockwise())),
    "polar": (("Polygon",), none, lambda g, W: g.ispolar()),
    "perimeter": (("Polygon",), none, lambda g, W: g.perimeter),
    "area": (("Polygon",), none, lambda g, W: g.area),
    "centroid": (("Polygon",), none, lambda g, W: g.centroid),
    "contains": (("Polygon",), lambda r: [o_pt(r)], lambda g, W, s: bool(g.contains(operand(g, W, s)))),
    "toline": (("Polygon",), none, lambda g, W: g.to_line()),
    "data": (MULTI, lambda r: [round(r.random(), 3), 0], q_data),
    "dfield": (MULTI, lambda r: [r.randint(0, 9)], q_dfield),
    "parts": (NP, none, q_parts),
    "rebuild": (ALL, lambda r: [r.random() < 0.5], q_rebuild),
    "in": (("Multipoint",), idx, q_contains),
    "radius": (("Multipoint",), lambda r: [["pt", round(r.random(), 3), round(r.random(), 3), None], r.choice([0.1, 0.3, 0.7])], q_radius),
    "wbbox": (MULTI, lambda r: [["box", r.randint(0, 10 ** 6)]], lambda g, W, s: g.within_bbox(operand(g, W, s))),
    "wpoly": (("Multipoint",), lambda r: [o_poly(r)], lambda g, W, s: g.within_polygon(operand(g, W, s))),
    "tbbox": (MM, lambda r: [["box", r.randint(0, 10 ** 6)]], lambda g, W, s: g.touching_bbox(operand(g, W, s))),
    "touching": (MM, lambda r: [r.choice([["line", r.randint(0, 10 ** 6)], o_poly(r)])], lambda g, W, s: g.touching(operand(g, W, s))),
    "within": (MM, lambda r: [o_poly(r)], lambda g, W, s: g.within(operand(g, W, s))),
    "affine": (("Multipoint",), lambda r: [r.randint(0, 10 ** 6)], q_affine),
    "tablejson": (MULTI, none, lambda g, W: sorted(g.data.asjson())),
    "repr": (MULTI, none, lambda g, W: [sorted(repr(g.data)), sorted(repr(g.d))]),
}
BY = {t: sorted(n for n in Q if t in Q[n][0]) for t in ALL}
HEAVY = ("shortest", "nearest", "withindist", "perimeter", "points", "npoints", "intersections", "area", "touching", "within", "segments",
         "polar", "iter", "parts", "dateline", "cumulength")


def gen(r, typ, names=None):
    c = [n for n in BY[typ] if names is None or n in names]
    n = r.choice(c)
    return [n] + Q[n][1](r)


def call(g, op, W=()):
    return Q[op[0]][2](g, W or [g], *op[1:])


def ask(g, op, W=()):
    """canonical answer; an exception is an answer too"""
    with np.errstate(all="ignore"):
        try:
            return ["ok", canon(call(g, op, W))]
        except Exception as e:
            return ["raised", type(e).__name__]


def snapshot(g):
    """everything observable about a geometry, as plain data"""
    return canon(g)
