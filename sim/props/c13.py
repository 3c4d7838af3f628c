"""Attribute rows stay with their geometry, in any iteration order."""
import os
import random

from .. import orders
orders.install()            # before anything of karta is imported

import numpy as np

from .. import catalog_geom as CG, geo
from ..rt import Violation, attempt, short
from karta.vector import write_shapefile
from karta.vector._gpx import GPX
from karta.vector.geometry import Point, Line, Polygon, Multipoint, Multiline, Multipolygon
from karta.vector.read import read_geojson, read_gpx_tracks, read_shapefile
from karta.vector.table import Table

COLS = ["alpha", "beta", "gamma", "name", "zeta", "desc", "mu", "rho", "cmt"]
PROPS = ["p_one", "p_two", "p_three"]
FAMILY = {"Multipoint": (Point, Multipoint), "Multiline": (Line, Multiline), "Multipolygon": (Polygon, Multipolygon)}
SEARCH = ("wbbox", "wpoly", "radius", "tbbox", "touching", "within")


def val(col, k):
    """what part k has in a column: identifies both"""
    c = sum(map(ord, col)) % 3
    if c == 0:
        return COLS.index(col) * 1000 + k if col in COLS else 9000 + k
    if c == 1:
        return 0.5 + k + 100 * len(col)
    return "%s-%d" % (col, k)


def pval(name):
    return 77000 + PROPS.index(name)


def gen_object(r, crs, typ, base):
    many = r.random() < 0.04
    nparts = r.randint(1, 7 if typ == "Multipoint" else 4)
    if many:            # enough for the search trees to split
        nparts = r.randint(55, 130) if typ == "Multipoint" else r.randint(12, 40)
    s = geo.geom(r, typ, crs, z=False, nparts=nparts, maxv=5, data=False)
    n = len(s["v"])
    cols = r.sample(COLS, r.randint(0, 5))
    how = r.choice(["dict", "dict", "parts", "parts", "both", "table"])
    orders_ = []
    for _ in range(n):
        o = list(cols)
        r.shuffle(o)
        if r.random() < 0.4:
            o.insert(r.randint(0, len(o)), "own%d" % len(orders_))
        orders_.append(o)
    return {"g": dict(s, p={}), "cols": cols, "how": how, "order": orders_, "base": base, "cut": r.randint(0, len(cols)),
            "p": r.sample(PROPS, r.randint(0, 2)) if how in ("dict", "table") else [], "noindex": r.random() < 0.15 and typ == "Multipoint"}


def generate(r, tier, i):
    crs = r.choice(["cart", "cart", "wgs84", "web", "laea"])
    typ = r.choice(["Multipoint", "Multipoint", "Multiline", "Multipolygon"])
    k = r.choice([1, 2, 2, 3])
    world = [gen_object(r, crs, typ, 100 * j) for j in range(k)]
    ops = []
    for _ in range(r.randint(2, 7)):
        c = r.choice(["slice", "search", "search", "parts", "merge", "merge", "transform", "geojson", "shp", "gpx", "setitem", "setitem", "field", "seek"])
        ops.append([r.randint(0, 9), c, r.randint(0, 10 ** 9)])
    return {"sets": r.randint(1, 10 ** 9) if r.random() < 0.9 else None, "world": world, "ops": ops}


# ------------------------------------------------------------------ model

class Obj(object):
    """a multipart geometry and what its parts are expected to carry"""

    def __init__(self, g, where, rows, props):
        self.g, self.where, self.rows, self.props = g, where, rows, props

    @property
    def cols(self):
        return sorted(self.rows[0]) if self.rows else []


def spot(v):
    """where a part is: the mean of its distinct vertices"""
    v = np.asarray(v, dtype=float)
    if v.ndim == 1:
        v = v[None, :]
    v = v[:, :2]
    return np.unique(np.round(v, 9), axis=0).mean(axis=0)


def outline(part, crs=None):
    if isinstance(part, Point):
        return part.vertex(crs=crs)[:2] if crs is not None else part.vertex()[:2]
    return part.vertices(crs=crs) if crs is not None else part.vertices()


def build(o):
    s = o["g"]
    n = len(s["v"])
    ids = [o["base"] + i for i in range(n)]
    cols = list(o["cols"])
    crs = geo.CRS[s["crs"]]
    single, multi = FAMILY[s["t"]]
    kw = {}
    if o["noindex"]:
        kw["build_index"] = False
    if o["p"]:
        kw["properties"] = {p: pval(p) for p in o["p"]}
    if s["t"] == "Multipoint":
        coords = [tuple(v) for v in s["v"]]
    elif s["t"] == "Multiline":
        coords = [[tuple(v) for v in l] for l in s["v"]]
    else:
        coords = [[[tuple(v) for v in rg] for rg in p] for p in s["v"]]
    rows = [{c: val(c, k) for c in cols} for k in ids]
    if o["how"] in ("dict", "table"):
        if o["how"] == "table" and cols:
            kw["data"] = Table([tuple(row[c] for c in cols) for row in rows], fields=cols)
        elif cols:
            kw["data"] = {c: [row[c] for row in rows] for c in cols}
        g = multi(coords, crs=crs, **kw)
    else:
        inner = cols if o["how"] == "parts" else cols[:o["cut"]]
        outer = [] if o["how"] == "parts" else cols[o["cut"]:]
        if o["how"] == "both" and not (inner and outer):
            inner, outer = cols, []
        parts = []
        for i, c in enumerate(coords):
            p = {k: val(k, ids[i]) if k in cols else -1 for k in o["order"][i] if k in inner or k not in cols}
            if s["t"] == "Multipolygon":
                parts.append(Polygon(c[0], subs=[Polygon(h, crs=crs) for h in c[1:]], properties=p, crs=crs))
            else:
                parts.append(single(c, properties=p, crs=crs))
        if n == 1:
            # the only part's own attribute becomes a column too
            rows = [dict(rows[0], **{k: -1 for k in o["order"][0] if k not in cols})]
        if outer:
            kw["data"] = {c: [val(c, k) for k in ids] for c in outer}
        g = multi(parts, crs=crs, **kw)
    return Obj(g, [spot(c[0] if s["t"] == "Multipolygon" else c) for c in coords], rows, {p: pval(p) for p in o["p"]})


class NoRows(Exception):
    """known finding no-rows"""


def norows(x, cols):
    """the recorded defect: a multipart geometry made from parts none of which
    has a property has no rows, and its parts cannot be accessed"""
    return len(x) > 0 and not cols and not x.data.fields and len(x.data) == 0


def check(o, when):
    g = o.g
    n = len(o.rows)
    if len(g) != n:
        raise Violation("parts", "%s: %d parts, expected %d" % (when, len(g), n))
    if n == 0:
        return
    cols = o.cols
    if sorted(g.data.fields) != cols:
        raise Violation("columns", "%s: columns %s, expected %s" % (when, sorted(g.data.fields), cols))
    if len(g.data) != n:
        raise Violation("rows", "%s: %d rows for %d parts" % (when, len(g.data), n))
    for i in range(n):
        part = g[i]
        if not near(spot(outline(part)), o.where[i]):
            raise Violation("moved", "%s: part %d is elsewhere" % (when, i))
        same(g.d[i], o.rows[i], "%s: row %d" % (when, i))
        same(g.data.get(i), o.rows[i], "%s: row %d" % (when, i))
        same(part.properties, dict(o.rows[i], **o.props), "%s: attributes of part %d" % (when, i))
    for c in cols:
        want = [row[c] for row in o.rows]
        if list(g.d[c]) != want:
            raise Violation("column", "%s: column %s is %s, expected %s" % (when, c, short(g.d[c]), short(want)))
        if list(g.d[0:n][c]) != want or list(g.data.getfield(c)) != want:
            raise Violation("column", "%s: column %s by slice is %s, expected %s" % (when, c, short(g.d[0:n][c]), short(want)))


def same(got, want, what):
    if dict(got) != want:
        raise Violation("attributes", "%s: %s, expected %s" % (what, short(dict(got)), short(want)))


def near(a, b):
    return bool(np.all(np.abs(np.asarray(a) - np.asarray(b)) <= 1e-6 + 1e-9 * np.abs(b)))


def adopt(x, cand, need, when, loose=None, frm_parts=False):
    """a derived geometry: every part has to be one of the candidates and carry
    that candidate's row. cand: list of (place, row); need: columns it must have"""
    loose = loose or {}
    n = len(x)
    if n == 0:
        return Obj(x, [], [], {})
    if frm_parts and norows(x, need):
        raise NoRows("%s: %d parts, 0 rows" % (when, n))
    if len(x.data) != n:
        raise Violation("rows", "%s: %d rows for %d parts" % (when, len(x.data), n))
    have = set(x.data.fields)
    if not set(need) <= have:
        raise Violation("columns", "%s: columns %s, expected %s" % (when, sorted(have), sorted(need)))
    extra = have - set(need)
    if not extra <= set(loose):
        raise Violation("columns", "%s: unexpected columns %s" % (when, sorted(extra - set(loose))))
    where, rows = [], []
    for i in range(n):
        p = spot(outline(x[i]))
        rs = [row for q, row in cand if near(p, q)]
        if not rs:
            raise Violation("part", "%s: part %d is not a part of what it was made from" % (when, i))
        got = dict(x.d[i])
        want = [dict({c: row[c] for c in need}, **{c: loose[c] for c in extra}) for row in rs]
        if got not in want:
            raise Violation("attributes", "%s: part %d has %s, expected %s" % (when, i, short(got), short(want[0])))
        where.append(p)
        rows.append(got)
    return Obj(x, where, rows, dict(x.properties))


def cands(o, crs=None):
    if crs is None or crs is o.g.crs:
        return list(zip(o.where, o.rows))
    return [(spot(outline(o.g[i], crs)), o.rows[i]) for i in range(len(o.rows))]


def step(W, o, op, seed, ctx):
    r = random.Random(seed)
    g = o.g
    t = g._geotype
    n = len(o.rows)
    when = "%s on %s with columns %s" % (op, t, o.cols)
    single, multi = FAMILY[t]
    if op == "slice":
        a = r.randint(0, n)
        b = r.randint(a, n)
        sl = slice(a, b, r.choice([1, 1, 2])) if r.random() < 0.8 or b <= a else slice(b - 1, a - 1 if a else None, -1)
        if t == "Multipoint" and r.random() < 0.3:
            sl = slice(*[r.choice([None, r.randint(-n - 1, n + 1)]) for _ in range(2)] + [r.choice([None, 1, 2, 3, -1, -2, -3])])
        x = g[sl]
        idx = list(range(n))[sl]
        y = adopt(x, cands(o), o.cols, when)
        if len(y.rows) != len(idx) or any(not near(y.where[i], o.where[j]) for i, j in enumerate(idx)):
            raise Violation("parts", "%s: [%s] gives other parts" % (when, sl))
        return y
    if op == "search":
        names = [q for q in SEARCH if q in CG.BY[t]]
        q = CG.gen(r, t, names)
        if r.random() < 0.4 and q[0] in ("wbbox", "tbbox"):
            x0, y0, x1, y1 = geo.box(CG.crsname(g))
            f = getattr(g, "within_bbox" if q[0] == "wbbox" else "touching_bbox")
            st, x = attempt(f, (x0, y0, x0 + (x1 - x0) * 0.8, y1))
        else:
            with np.errstate(all="ignore"):
                st, x = attempt(CG.call, g, q, [w.g for w in W])
        if st == "exc":
            return None
        return adopt(x, cands(o), o.cols, when + " " + q[0], o.props, frm_parts=True)
    if op == "parts":
        idx = list(range(n))
        r.shuffle(idx)
        idx = idx[:r.randint(1, n)]
        parts = [g[i] for i in idx]
        kw = {}
        extra = None
        if r.random() < 0.4:
            extra = r.choice([c for c in COLS if c not in o.cols] or ["fresh"])
            kw["data"] = {extra: [val(extra, 10 ** 4 + i) for i in idx]}
        x = multi(parts, crs=g.crs, **kw)
        c = [(o.where[i], dict(o.rows[i], **dict(o.props, **({extra: val(extra, 10 ** 4 + i)} if extra else {})))) for i in idx]
        return adopt(x, c, list(c[0][1]), when, frm_parts=True)
    if op == "merge":
        others = [w for w in W if w.g._geotype == t and len(w.rows)]
        items, c, need = [], [], None
        crs = g.crs
        kw = {}
        if crs.get_proj4() != "" and r.random() < 0.3:
            crs = geo.CRS[r.choice(["wgs84", "web"])]
            kw["crs"] = crs
        for k in range(r.randint(1, 3)):
            w = o if k == 0 else r.choice(others)
            if (w.g.crs.get_proj4() == "") != (crs.get_proj4() == ""):
                continue
            if r.random() < 0.4:
                i = r.randrange(len(w.rows))
                row = dict(w.rows[i], **w.props)
                items.append(w.g[i])
                c.append((spot(outline(w.g[i], crs)), row))
                keys = set(row)
            else:
                items.append(w.g)
                c.extend(cands(w, crs))
                keys = set(w.cols)
            need = keys if need is None else need & keys
        if not items:
            return None
        x = multi.merge(*items, **kw)
        if len(x) != len(c):
            raise Violation("parts", "%s: %d parts, expected %d" % (when, len(x), len(c)))
        for i in range(len(c)):
            if not near(spot(outline(x[i])), c[i][0]):
                raise Violation("parts", "%s: part %d of a merged geometry is another one" % (when, i))
        return adopt(x, c, sorted(need), when)
    if op == "transform":
        M = np.round(np.array([[0.7, 0.2 * r.random(), r.randint(-9, 9)], [0.1 * r.random(), 0.7, r.randint(-4, 4)]]), 3)
        x = g.apply_transform(M)
        c = [(M[:, :2].dot(p) + M[:, 2], row) for p, row in cands(o)]
        return adopt(x, c, o.cols, when, o.props)
    if op == "geojson":
        if g.crs.get_proj4() == "":
            f, crs = dict(force_wgs84=False), None
        else:
            f, crs = {}, geo.CRS["wgs84"]
        text = g.as_geojson(**f)
        got = read_geojson(text, **({} if crs is not None else {"crs": g.crs}))
        if len(got) != 1:
            raise Violation("parts", "%s: %d geometries read" % (when, len(got)))
        return adopt(got[0], cands(o, crs), o.cols, when, o.props)
    if op == "shp":
        if any(v is None for row in o.rows for v in row.values()) or n == 0:
            return None
        stem = os.path.join(ctx.tmp, "s%d" % ctx.steps)
        write_shapefile(stem + ".shp", *list(g))
        for i, f in enumerate(read_shapefile(stem)):
            p = spot(outline(f))
            rs = [(j, row) for j, (q, row) in enumerate(cands(o)) if near(p, q)]
            if not rs:
                raise Violation("part", "%s: feature %d read is not one written" % (when, i))
            want = [{k.upper(): v for k, v in dict(row, **o.props).items()} for _, row in rs]
            got = {k: v for k, v in f.properties.items() if k != "id"}
            if got not in want:
                raise Violation("attributes", "%s: feature %d read has %s, expected %s" % (when, i, short(got), short(want[0])))
        return None
    if op == "gpx":
        if t != "Multipoint" or CG.crsname(g) != "wgs84":
            return None
        stem = os.path.join(ctx.tmp, "x%d.gpx" % ctx.steps)
        doc = GPX()
        doc.add_track(g)
        doc.writefile(stem)
        back = GPX(stem)
        pts = back.tracks[0].trksegs[0].trkpts
        if len(pts) != n:
            raise Violation("parts", "%s: %d track points, expected %d" % (when, len(pts), n))
        for i, p in enumerate(pts):
            got = dict(p.properties)
            got.update(p.extensions)
            same(got, {k: str(v) for k, v in o.rows[i].items()}, "%s: track point %d" % (when, i))
        return None
    if op == "setitem":
        if t != "Multipoint":
            return None
        w = r.choice([w for w in W if len(w.rows) and w.g._geotype == t])
        if (w.g.crs.get_proj4() == "") != (g.crs.get_proj4() == ""):
            return None
        i, j = r.randrange(n), r.randrange(len(w.rows))
        pt = w.g[j]
        row = dict(w.rows[j], **w.props)
        items = list(pt.properties.items())
        r.shuffle(items)
        pt = Point(pt.vertex(), properties=dict(items), crs=pt.crs)
        p = spot(pt.vertex(g.crs))
        g[i if r.random() < 0.7 else i - n] = pt
        o.where[i], o.rows[i] = p, {c: row.get(c) for c in o.cols}
        return None
    if op == "field":
        c = r.choice(COLS[:6])
        if c in o.props:
            return None
        ids = [r.randint(0, 99) for _ in range(n)]
        g.data.setfield(c, [val(c, 500 + k) for k in ids])
        for row, k in zip(o.rows, ids):
            row[c] = val(c, 500 + k)
        return None
    if op == "seek":
        # a whole table read at once
        if n and o.cols:
            tb = g.data
            up = tb.updated({"seek": list(range(n))})
            for i in range(n):
                same(up.get(i), dict(o.rows[i], seek=i), "%s: row %d of an updated table" % (when, i))
            two = Table(data=list(tb.data[:0]), fields=tuple(sorted(tb.fields)))
            two.extend(tb)
            for i in range(n):
                same(two.get(i), o.rows[i], "%s: row %d of an extended table" % (when, i))
        return None


def execute(sc, ctx):
    orders.Order.use(sc["sets"])
    try:
        W = []
        for o in sc["world"]:
            x = build(o)
            if o["how"] in ("parts", "both") and norows(x.g, x.cols):
                ctx.finding("no-rows", "%d parts, 0 rows" % len(x.g))
                continue
            W.append(x)
            check(W[-1], "construction from %s" % o["how"])
            ctx.mark("build", o["g"]["t"], o["how"], len(o["cols"]))
        for w, op, seed in sc["ops"] if W else ():
            o = W[w % len(W)]
            if not o.rows:
                continue
            ctx.steps += 1
            before = orders.Order.drawn
            try:
                x = step(W, o, op, seed, ctx)
            except NoRows as e:
                ctx.finding("no-rows", str(e))
                x = None
            drawn = orders.Order.drawn - before
            ctx.fault("set order drawn", drawn)
            ctx.mark(op, o.g._geotype, len(o.cols), min(len(o.rows), 4), min(drawn, 6))
            ctx.count(op)
            if x is not None and x.rows and len(W) < 7:
                W.append(x)
            for k, q in enumerate(W):
                check(q, "after %s, geometry %d" % (op, k))
    finally:
        orders.Order.use(None)


def shrinks(sc):
    n = len(sc["ops"])
    for size in sorted({n // 2, 1}, reverse=True):
        for i in range(0, n, size or 1):
            yield dict(sc, ops=sc["ops"][:i] + sc["ops"][i + (size or 1):])
    if len(sc["world"]) > 1:
        for i in range(len(sc["world"])):
            yield dict(sc, world=sc["world"][:i] + sc["world"][i + 1:])
    if sc["sets"] is not None:
        yield dict(sc, sets=None)
    for i, o in enumerate(sc["world"]):
        for c in o["cols"]:
            k = [x for x in o["cols"] if x != c]
            yield dict(sc, world=sc["world"][:i] + [dict(o, cols=k, cut=min(o["cut"], len(k)), order=[[x for x in q if x != c] for q in o["order"]])] + sc["world"][i + 1:])
        if o["p"]:
            yield dict(sc, world=sc["world"][:i] + [dict(o, p=[])] + sc["world"][i + 1:])
