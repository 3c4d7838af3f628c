"""After any history of changes a geometry answers like a fresh one."""
import json

import numpy as np

from .. import catalog_geom as CG, geo
from ..rt import Violation, attempt, canon, first_diff, short
from karta.vector.geometry import Line, Point
from karta.vector.table import Table

TYPES = ("Multipoint", "Multipoint", "Multipoint", "Line", "Line", "Line", "Multiline", "Multipolygon", "Polygon", "Table")
DERIVE = ("slice", "slice", "shift", "transform", "wbbox", "wpoly", "radius", "rotate", "merge", "tbbox", "touching",
          "topolygon", "toline", "item", "item", "rebuild", "hull")
SKIP = ("eq",)
# what changes make stale: asked more often
SPATIAL = ("bbox", "extent", "radius", "wbbox", "wpoly", "length", "geojson", "item", "slice", "coords", "hull",
           "intersects", "tbbox", "touching", "data", "geointerface", "dist", "in", "cumulength", "npoints", "segments",
           "contains", "perimeter", "area", "ring", "nearestv", "displacement", "flatdist", "vertices", "clockwise")


def gen_table(r):
    n = r.randint(1, 5)
    return {"t": "Table", "d": geo.table(r, n, r.randint(1, 4)), "n": n}


def gen_obj(r, crs):
    t = r.choice(TYPES)
    if t == "Table":
        return gen_table(r)
    s = geo.geom(r, t, crs if r.random() < 0.8 else None, maxv=r.choice([5, 5, 8, 8, 5, 8, 8, 120]) if t == "Multipoint" else 6)
    if t != "Line" and r.random() < 0.2:
        s["noindex"] = 1
    return s


def gen_query(r):
    # drawn by position so that a query exists for whatever type is met
    return ["q", r.randint(0, 99), r.randint(0, 10 ** 9), r.random() < 0.6]


def gen_change(r):
    c = r.random()
    fx, fy = round(r.random(), 3), round(r.random(), 3)
    if c < 0.24:
        return ["setpt", r.randint(-9, 9), fx, fy, r.choice([None, None, None, "wgs84", "web", "nsidc", "cart"]),
                r.random() < 0.8, r.randint(0, 10 ** 6), r.random() < 0.2]
    if c < 0.34:
        return ["setxy", r.randint(-9, 9), fx, fy]
    if c < 0.42:
        return ["setitem", r.randint(-9, 9), r.randint(0, 9), r.randint(0, 99)]
    if c < 0.58:
        return ["extend", r.choice([["line", r.randint(0, 10 ** 6)], ["in", r.randint(0, 10 ** 6)], ["w", r.randint(0, 9)]])]
    if c < 0.73:
        return ["field", r.choice(geo.WORDS[:6] + [None, None]), r.randint(0, 10 ** 6)]
    if c < 0.8:
        return ["prop", r.choice(geo.WORDS), r.randint(0, 10 ** 6)]
    return [r.choice(["badindex", "badlen", "badextend", "badkey", "badcoords", "badrank"]), r.randint(0, 99), fx, fy]


def generate(r, tier, i):
    crs = r.choice(["cart", "cart", "wgs84", "web", "nsidc", "laea"])
    world = [gen_obj(r, crs) for _ in range(r.choice([1, 1, 2]))]
    ops = []
    for _ in range(r.randint(3, 12)):
        w = r.randint(0, 9)
        c = r.random()
        if c < 0.35:
            ops.append([w] + gen_query(r))
        elif c < 0.85:
            ops.append([w] + gen_change(r))
        else:
            ops.append([w, "derive", r.choice(DERIVE), r.randint(0, 10 ** 9)])
    # questions asked again after every change of the object
    stand = [[r.randint(0, 9)] + gen_query(r) for _ in range(r.choice([0, 2, 3, 4]))]
    return {"world": world, "ops": ops, "stand": stand, "late": [[r.randint(0, 9)] + gen_query(r) for _ in range(4)]}


# ------------------------------------------------------------------ model

def build(s):
    if s["t"] == "Table":
        return Table({k: list(v) for k, v in s["d"].items()})
    return geo.build_geom(s)


def spec_of(g):
    """the content of a derived geometry, as a specification to build it anew"""
    t = g._geotype
    s = {"t": t, "p": dict(g.properties), "crs": CG.crsname(g)}
    if t == "Point":
        s["v"] = list(g.vertex())
    elif t == "Polygon":
        s["v"] = g.vertices().tolist()
        s["subs"] = [x.vertices().tolist() for x in g.subs]
        s["subp"] = [dict(x.properties) for x in g.subs]
    elif t in ("Line", "Multipoint"):
        s["v"] = g.vertices().tolist()
    elif t == "Multiline":
        s["v"] = [x.vertices().tolist() for x in g]
    else:
        s["v"] = [[x.vertices().tolist()] + [h.vertices().tolist() for h in x.subs] for x in g]
    if t.startswith("Multi"):
        s["d"] = {f: list(g.data.getfield(f)) for f in sorted(g.data.fields)}
    return s


def rnd(seed):
    import random
    return random.Random(seed)


def rows(s):
    return s["n"] if s["t"] == "Table" else len(s["v"])


def column(seed, n):
    r = rnd(seed)
    c = r.randint(0, 2)
    return [r.randint(-999, 999) if c == 0 else round(r.uniform(-9, 9), 3) if c == 1 else "w%d" % r.randint(0, 999) for _ in range(n)]


class Sim(object):
    def __init__(self, sc, ctx):
        self.ctx = ctx
        self.S = [json.loads(json.dumps(s)) for s in sc["world"]]
        self.W = [build(s) for s in self.S]

    def fresh(self):
        return [build(s) for s in self.S]

    def check(self, when):
        for i, (g, f) in enumerate(zip(self.W, self.fresh())):
            st, now = attempt(canon, g)
            if st == "exc":
                raise Violation("unusable", "%s: %s %d cannot be read: %s: %s" % (when, self.S[i]["t"], i, type(now).__name__, now))
            want = canon(f)
            if now != want:
                raise Violation("content", "%s: %s %d differs from a fresh one: %s" % (when, self.S[i]["t"], i, first_diff(want, now)))

    # queries -----------------------------------------------------------
    def query(self, w, q, when):
        s = self.S[w]
        r = rnd(q[2])
        if s["t"] == "Table":
            return self.table_query(w, r, when)
        names = [n for n in CG.BY[s["t"]] if n not in SKIP]
        if q[3]:
            names = [n for n in names if n in SPATIAL]
        op = CG.gen(r, s["t"], [names[q[1] % len(names)]])
        F = self.fresh()
        GF = [x for x in F if not isinstance(x, Table)]
        GW = [x for x in self.W if not isinstance(x, Table)]
        a, b = ask(F[w], op, GF), ask(self.W[w], op, GW)
        self.ctx.mark(s["t"], when[0], op[0], a[0])
        if a != b:
            raise Violation("answers", "after %s, %s on %s %d gives %s; on a fresh one: %s" % (
                short(when), short(op), s["t"], w, short(b), first_diff(a, b)))

    def table_query(self, w, r, when):
        i, n = r.randint(-9, 9), r.choice(geo.WORDS)
        known = sorted(self.S[w]["d"])
        k = r.choice(known)

        def ask_table(t):
            return canon([attempt(t.get, i), attempt(t.get, slice(0, abs(i))), attempt(t.getfield, n), t.getfield(k), len(t),
                          sorted(t.fields), n in t, k in t, sorted(t.asjson()), [len(x) for x in t], [sorted(map(str, x)) for x in t.data]])
        a, b = ask_table(build(self.S[w])), ask_table(self.W[w])
        self.ctx.mark("Table", when[0], "read")
        if a != b:
            raise Violation("answers", "after %s, table %d answers differently from a fresh one: %s" % (short(when), w, first_diff(a, b)))

    # changes -----------------------------------------------------------
    def change(self, w, op):
        s, g = self.S[w], self.W[w]
        if s["t"] == "Line" and op[0] in ("setpt", "setxy", "field"):
            n = int(abs(op[2]) * 1e6) if op[0] != "field" else op[2]
            op[:] = ["extend", [["in", "line", "in", "w"][n % 4], n]]
        k = op[0]
        f = getattr(self, "do_" + k, None)
        if f is None:
            return None
        return f(w, s, g, *op[1:])

    def expect(self, what, st, v, ok):
        if ok and st == "exc":
            raise Violation("refused", "%s raised %s: %s" % (what, type(v).__name__, v))
        if not ok and st == "ok":
            raise Violation("accepted", "%s was accepted" % what)
        return st

    def assign(self, w, s, g, i, pt):
        """g[i] = Point"""
        n = len(s["v"])
        i = i if -n <= i < n else i % n
        sv, vert = attempt(pt.vertex, g.crs)
        dim = len(s["v"][0])
        ok = sv == "ok" and len(vert) >= dim
        st, e = attempt(g.__setitem__, i, pt)
        self.expect("assigning %r in another or the same coordinate system" % (pt,), st, e, ok)
        if ok:
            s["v"][i] = [float(x) for x in vert[:dim]]
            for f in s["d"]:
                s["d"][f][i] = pt.properties.get(f)
        return "ok" if ok else "rejected"

    def do_setpt(self, w, s, g, i, fx, fy, crs, full, seed, npint):
        if s["t"] != "Multipoint":
            return None
        r = rnd(seed)
        p = {f: column(r.randint(0, 10 ** 6), 1)[0] for f in sorted(s["d"]) if full or r.random() < 0.5}
        if r.random() < 0.5:
            p["extra"] = r.randint(0, 99)
        x0, y0, x1, y1 = geo.box(crs or s["crs"])
        v = (x0 + fx * (x1 - x0), y0 + fy * (y1 - y0))
        if len(s["v"][0]) == 3 and r.random() < 0.8:
            v = v + (round(r.uniform(-9, 9), 2),)
        pt = Point(v, properties=p, crs=geo.CRS[crs or s["crs"]])
        return self.assign(w, s, g, np.int64(i) if npint else i, pt)

    def do_setitem(self, w, s, g, i, j, k):
        """an item of a multipoint assigned to another place"""
        if s["t"] != "Multipoint":
            return None
        c = [x for x, o in enumerate(self.S) if o["t"] == "Multipoint"]
        o = self.W[c[j % len(c)]]
        return self.assign(w, s, g, i, o[k % len(o)])

    def do_setxy(self, w, s, g, i, fx, fy):
        if s["t"] != "Multipoint":
            return None
        n = len(s["v"])
        i = i if -n <= i < n else i % n
        v = [float(x) for x in CG.xy(g, fx, fy)]
        if len(s["v"][0]) == 3:
            v.append(1.5)
        st, e = attempt(g.__setitem__, i, tuple(v))
        self.expect("assigning %r" % (v,), st, e, True)
        s["v"][i] = v
        for f in s["d"]:
            s["d"][f][i] = None
        return "ok"

    def do_extend(self, w, s, g, o):
        if s["t"] == "Table":
            c = [x for x, y in enumerate(self.S) if y["t"] == "Table"]
            if o[0] == "w":
                j = c[o[1] % len(c)]
                if j == w:
                    return None
                od, on, ot = self.S[j]["d"], self.S[j]["n"], self.W[j]
            else:
                os_ = gen_table(rnd(o[1]))
                od, on, ot = os_["d"], os_["n"], build(os_)
            st, e = attempt(g.extend, ot)
            self.expect("extending a table", st, e, True)
            for f in s["d"]:
                s["d"][f] = s["d"][f] + (list(od[f]) if f in od else [None] * on)
            s["n"] += on
            return "ok"
        if s["t"] != "Line":
            return None
        if o[0] == "w":
            c = [x for x, y in enumerate(self.S) if y["t"] == "Line" and y["crs"] == s["crs"]]
            j = c[o[1] % len(c)]
            other, ov = self.W[j], self.S[j]["v"]
        elif o[0] == "in":
            # within the extent of the line, in its own coordinates
            r = rnd(o[1])
            lo, hi = np.min(s["v"], axis=0), np.max(s["v"], axis=0)
            ov = [[float(a + r.random() * (b - a)) for a, b in zip(lo, hi)] for _ in range(r.randint(2, 4))]
            other = geo.build_geom({"t": "Line", "v": ov, "p": {}, "crs": s["crs"]})
        else:
            other = CG.operand(g, [g], o)
            ov = other.vertices().tolist()
        ok = len(ov[0]) == len(s["v"][0])
        st, e = attempt(g.extend, other)
        self.expect("extending a line", st, e, ok)
        if ok:
            s["v"] = s["v"] + [list(v) for v in ov]
        return "ok" if ok else "rejected"

    def do_field(self, w, s, g, name, seed):
        if "d" not in s:
            return None
        if name is None or name in s.get("p", {}):
            k = sorted(s["d"])
            if not k:
                return None
            name = k[seed % len(k)]
        vals = column(seed, rows(s))
        given = tuple(vals) if seed % 3 == 0 else list(vals)
        t = g if s["t"] == "Table" else g.data
        st, e = attempt(t.setfield, name, given)
        self.expect("setting a column", st, e, True)
        if isinstance(given, list):
            given[:] = ["later"] * len(given)
        s["d"][name] = vals
        return "ok"

    def do_prop(self, w, s, g, name, seed):
        if s["t"] == "Table" or name in s.get("d", {}):
            return None
        g.properties[name] = seed
        for x, o in zip(self.S, self.W):
            if x["t"] != "Table":
                x["p"] = dict(o.properties)
        return "ok"

    def do_badindex(self, w, s, g, k, fx, fy):
        n = rows(s)
        i = n + k if k % 2 else -n - 1 - k
        if s["t"] == "Multipoint":
            v = tuple(float(x) for x in CG.xy(g, fx, fy)) + (1.0,) * (len(s["v"][0]) - 2)
            if k % 3 == 0:
                v = Point(v, properties={}, crs=g.crs)
            st, e = attempt(g.__setitem__, i, v)
        elif s["t"] == "Table":
            st, e = attempt(g.__setitem__, i, (1,) * len(s["d"]))
        else:
            return None
        self.expect("assigning item %d of %d" % (i, n), st, e, False)
        return "rejected"

    def do_badkey(self, w, s, g, k, fx, fy):
        """a point whose position cannot be expressed in the geometry's coordinate system"""
        if s["t"] != "Multipoint" or s["crs"] == "cart":
            return None
        pt = Point((fx, fy) if k % 2 else (fx, fy, 1.0), properties={f: 1 for f in s["d"]}, crs=geo.CRS["cart"])
        st, e = attempt(g.__setitem__, k % rows(s), pt)
        return "rejected" if st == "exc" else None

    def do_badcoords(self, w, s, g, k, fx, fy):
        if s["t"] != "Multipoint":
            return None
        v = [("x", "y", "z"), (fx, None, fx), ([1, 2], [3], 4)][k % 3][:len(s["v"][0])]
        if k % 2:
            v = Point(v, properties={f: 1 for f in s["d"]}, crs=g.crs)
        st, e = attempt(g.__setitem__, k % rows(s), v)
        self.expect("assigning %r" % (v,), st, e, False)
        return "rejected"

    def do_badrank(self, w, s, g, k, fx, fy):
        """coordinates that aren't as many as the geometry's dimensions"""
        if s["t"] != "Multipoint":
            return None
        d = len(s["v"][0])
        v = tuple(float(x) for x in CG.xy(g, fx, fy)) + (1.0, 2.0)
        n = [1, 0, d + 1, 5 - d][k % 4]
        v = v[:n]
        st, e = attempt(g.__setitem__, k % rows(s), list(v) if k % 3 == 0 else v)
        self.expect("assigning %d coordinates to a vertex of %d" % (n, d), st, e, False)
        return "rejected"

    def do_badlen(self, w, s, g, k, fx, fy):
        if "d" not in s:
            return None
        n = rows(s) + (1 if k % 2 else -1)
        if n < 1:
            n = 2
        names = sorted(s["d"]) + ["fresh"]
        t = g if s["t"] == "Table" else g.data
        st, e = attempt(t.setfield, names[k % len(names)], column(k, n))
        self.expect("a column of %d values for %d rows" % (n, rows(s)), st, e, False)
        return "rejected"

    def do_badextend(self, w, s, g, k, fx, fy):
        if s["t"] != "Line":
            return None
        o = [CG.operand(g, [g], ["poly", k]), CG.operand(g, [g], ["pt", fx, fy, None]), None, 3,
             Line([tuple(v) + (1.0,) if len(v) == 2 else tuple(v)[:2] for v in s["v"]], crs=g.crs)][k % 5]
        st, e = attempt(g.extend, o)
        self.expect("extending a line by %r" % (o,), st, e, False)
        return "rejected"

    # derivation --------------------------------------------------------
    def do_derive(self, w, s, g, name, seed):
        if s["t"] == "Table":
            r = rnd(seed)
            m = {k: column(r.randint(0, 10 ** 6), s["n"]) for k in r.sample(geo.WORDS, r.randint(1, 3))}
            how = r.random()
            if how < 0.4:
                st, x = attempt(g.updated, Table({k: list(v) for k, v in m.items()}))
            elif how < 0.8:
                st, x = attempt(g.updated, {k: list(v) for k, v in m.items()})
            else:
                st, x = attempt(g.updated, {k: v + [1] for k, v in m.items()})
                self.expect("updating a table by longer columns", st, x, False)
                return "rejected"
            self.expect("updating a table", st, x, True)
            d = dict(s["d"])
            d.update(m)
            self.S.append({"t": "Table", "d": {k: list(v) for k, v in d.items()}, "n": s["n"]})
            self.W.append(x)
            return "ok"
        if name not in CG.BY[s["t"]]:
            return None
        op = CG.gen(rnd(seed), s["t"], [name])
        with np.errstate(all="ignore"):
            st, x = attempt(CG.call, g, op, [o for o in self.W if not isinstance(o, Table)])
        if st == "exc":
            return "raised"
        for x in (x if isinstance(x, (list, tuple)) else [x])[:2]:
            if getattr(x, "_geotype", None) is None or any(x is o for o in self.W):
                continue
            if x._geotype != "Point" and len(x) == 0:
                continue
            if x._geotype.startswith("Multi") and not s.get("d") and not s["p"] and not x.data.fields and len(x.data) == 0:
                # the recorded defect: made from parts none of which has a property, it has no rows and no items
                self.ctx.finding("no-rows", "%s of a %s: %d parts, 0 rows" % (name, s["t"], len(x)))
                continue
            if x.crs is not geo.CRS[CG.crsname(x)] or len(self.W) > 5:
                continue
            self.S.append(spec_of(x))
            self.W.append(x)
        return "ok"


def ask(g, op, W):
    with np.errstate(all="ignore"):
        try:
            x = CG.call(g, op, W)
            if op[0] in ("geojson", "togeojson"):
                x = json.loads(x)
            return ["ok", canon(x)]
        except Exception as e:
            return ["raised", type(e).__name__]


def execute(sc, ctx):
    sim = Sim(sc, ctx)
    sim.check("construction")
    last = ["construction"]
    stand = [[q[0] % len(sim.W)] + q[1:] for q in sc.get("stand", [])]
    for q in stand:
        sim.query(q[0], q[1:], last)
    for o in sc["ops"]:
        w, op = o[0] % len(sim.W), o[1:]
        if op[0] == "q":
            sim.query(w, op, last)
            ctx.count("query")
        else:
            st = sim.change(w, op)
            if st is None:
                continue
            last = op
            ctx.mark(sim.S[w]["t"], op[0], st)
            ctx.count("change" if st == "ok" else "rejected change")
            if st == "rejected":
                ctx.fault("rejected: " + op[0])
        ctx.steps += 1
        sim.check("after %s" % short(op))
        if op[0] not in ("q", "derive"):
            for q in stand:
                if q[0] == w or last[0] == "prop":
                    sim.query(q[0], q[1:], last)
    for q in sc["late"]:
        sim.query(q[0] % len(sim.W), q[1:], last)
    sim.check("later queries")


def shrinks(sc):
    n = len(sc["ops"])
    for size in sorted({n // 2, 1}, reverse=True):
        for i in range(0, n, size or 1):
            yield dict(sc, ops=sc["ops"][:i] + sc["ops"][i + (size or 1):])
    for i in range(len(sc["late"])):
        yield dict(sc, late=sc["late"][:i] + sc["late"][i + 1:])
    for i in range(len(sc.get("stand", []))):
        yield dict(sc, stand=sc["stand"][:i] + sc["stand"][i + 1:])
    if len(sc["world"]) > 1:
        for i in range(len(sc["world"])):
            yield dict(sc, world=sc["world"][:i] + sc["world"][i + 1:])
    for i, s in enumerate(sc["world"]):
        if s["t"] != "Table":
            for c in geo.shrink_geom(s):
                yield dict(sc, world=sc["world"][:i] + [c] + sc["world"][i + 1:])
