"""Looking at an object never changes it."""
import os

import numpy as np

from .. import catalog_geom as VG, catalog_grid as RG, geo, gridhist as H
from .. import rt
from ..rt import Violation, attempt, canon, first_diff, short
from ..sched import Interrupted
from .c08 import gen_at
from .c10 import gen_world
from karta.vector import write_shapefile

EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}
GRIDQ = [n for n in RG.NAMES]


def gen_query(r, s):
    if "ny" in s:
        return RG.gen(r, GRIDQ)
    return VG.gen(r, s["t"])


def generate(r, tier, i):
    world = gen_world(r, r.choice([1, 2, 2]))
    if r.random() < 0.4:
        g = H.gen_grid(r, big=False)
        g["ny"], g["nx"] = min(g["ny"], 8), min(g["nx"], 8)
        world = world[:r.randint(0, 1)] + [g]
    ops = []
    for _ in range(r.randint(2, 8)):
        w = r.randrange(len(world))
        q = gen_query(r, world[w])
        c = r.random()
        if c < 0.3:
            ops.append(["ask", w, q])
        elif c < 0.6:
            ops.append(["interrupt", w, q, [gen_at(r) for _ in range(r.choice([1, 3, 5]))], r.choice(sorted(EXC)), r.random() < 0.4])
        elif c < 0.85:
            ops.append(["scribble", w, q])
        else:
            ops.append(["write", w, r.choice(["geojson", "shp", "list", "gtiff", "aai", "nodir"]),
                        gen_at(r) if r.random() < 0.4 else None, r.choice(sorted(EXC))])
    return {"world": world, "ops": ops, "late": [[w, gen_query(r, s)] for w, s in enumerate(world) for _ in range(3)]}


def build(s):
    return H.build(s)[0] if "ny" in s else geo.build_geom(s)


def kind_of(s):
    return "grid" if "ny" in s else s["t"]


def ask(g, q, W):
    if hasattr(g, "nbands"):
        return RG.ask(g, q)
    return VG.ask(g, q, W)


def call(g, q, W):
    with np.errstate(all="ignore"):
        if hasattr(g, "nbands"):
            return RG.Q[q[0]][1](g, *q[1:])
        return VG.call(g, q, W)


def geoms(W):
    return [g for g in W if not hasattr(g, "nbands")]


def scribble(x, depth=0):
    """change whatever was returned"""
    if depth > 6:
        return 0
    n = 0
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size and x.dtype != object:
            x[...] = 1 if x.dtype.kind == "b" else 63
            n += 1
    elif isinstance(x, (list, tuple)):
        for i in x:
            n += scribble(i, depth + 1)
        if isinstance(x, list):
            x.reverse()
            del x[1:]
            n += 1
    elif isinstance(x, dict):
        # the dictionaries of properties of derived geometries may be shared;
        # the ones returned as such may not
        for v in x.values():
            n += scribble(v, depth + 1)
        x["scribbled"] = 1
        n += 1
    elif hasattr(x, "nbands"):
        x[:, :, :] = 63
        x.set_nodata_value(7)
        n += 1
    elif getattr(x, "_geotype", None) == "Multipoint" and len(x):
        x[0] = tuple(1.25 for _ in x.vertices()[0])
        x.data.setfield("scribbled", [9] * len(x))
        for f in sorted(x.data.fields):
            x.data.setfield(f, [7] * len(x))
        n += 1
    elif getattr(x, "_geotype", None) in ("Multiline", "Multipolygon") and len(x):
        for f in sorted(x.data.fields) + ["scribbled"]:
            x.data.setfield(f, [7] * len(x))
        n += 1
    elif getattr(x, "_geotype", None) == "Line" and len(x):
        attempt(x.extend, x)
        n += 1
    return n


def aliased(q):
    """results that are handed out as windows onto the object, on purpose"""
    return (q[0] == "rows") or (q[0] == "chunks" and not q[3])


def execute(sc, ctx):
    rt.WATCH = []
    try:
        history(sc, ctx)
    finally:
        rt.WATCH = None


def history(sc, ctx):
    W = [build(s) for s in sc["world"]]
    V = geoms(W)
    before = [canon(g) for g in W]

    def check(when):
        for i, g in enumerate(W):
            st, now = attempt(canon, g)
            if st == "exc":
                raise Violation("unusable", "%s: object %d (%s) cannot be read: %s: %s" % (
                    when, i, kind_of(sc["world"][i]), type(now).__name__, now))
            if now != before[i]:
                raise Violation("changed", "%s: object %d (%s) changed: %s" % (
                    when, i, kind_of(sc["world"][i]), first_diff(before[i], now)))

        for x, was in rt.WATCH:
            st, now = attempt(canon, x)
            if st == "exc" or now != was:
                raise Violation("argument", "%s: an argument of a call changed: %s" % (
                    when, now if st == "exc" else first_diff(was, now)))
        del rt.WATCH[:-40]

    check("construction")
    for op in sc["ops"]:
        w = op[1] % len(W)
        g = W[w]
        kind = kind_of(sc["world"][w])
        if not valid(g, op, kind):
            continue
        ctx.count(op[0])
        if op[0] == "ask":
            a = ask(g, op[2], V)
            ctx.mark("ask", kind, op[2][0], a[0])
        elif op[0] == "interrupt":
            cnt = Interrupted(libs=op[5])
            twin = [build(s) for s in sc["world"]]
            attempt(cnt.run, lambda: canon(call(twin[w], op[2], geoms(twin))))
            if cnt.n == 0:
                continue
            for at in op[3]:
                it = Interrupted(cnt.step(at), EXC[op[4]], op[5])
                try:
                    it.run(lambda: canon(call(g, op[2], V)))
                except Violation:
                    raise
                except BaseException:
                    pass
                ctx.steps += it.n
                if it.fired:
                    ctx.fault(op[4])
                ctx.mark("interrupt", kind, op[2][0], it.where)
                check("after %s interrupted by %s at %s" % (short(op[2]), op[4], it.where))
        elif op[0] == "scribble":
            st, x = attempt(call, g, op[2], V)
            if st == "exc" or aliased(op[2]) or any(x is o for o in W):
                continue
            if hasattr(x, "__next__"):
                x = list(x)
            st2, n = attempt(scribble, x)
            ctx.mark("scribble", kind, op[2][0], st2)
            if st2 == "ok" and n:
                ctx.count("results changed", n)
        elif op[0] == "write":
            st, e = write(g, op[2], ctx, V, op[3], EXC[op[4]], [build(s) for s in sc["world"]], w)
            ctx.mark("write", kind, op[2], st, type(e).__name__)
        ctx.steps += 1
        check("after %s" % short(op))
    fresh = [build(s) for s in sc["world"]]
    for w, q in sc["late"]:
        w = w % len(W)
        if not valid(W[w], ["ask", w, q], kind_of(sc["world"][w])):
            continue
        a, b = ask(fresh[w], q, geoms(fresh)), ask(W[w], q, V)
        if a != b:
            raise Violation("answers", "%s gives %s; on an object never looked at: %s" % (short(q), short(b), first_diff(a, b)))
    check("later queries")


def valid(g, op, kind):
    if op[0] == "write":
        return True
    if kind == "grid":
        return op[2][0] in RG.Q
    return op[2][0] in VG.Q and kind in VG.Q[op[2][0]][0]


def write(g, how, ctx, V, at, exc, twin, w):
    if at is None:
        return attempt(writer(g, how, ctx, V, ""))
    cnt = Interrupted(libs=False)
    attempt(cnt.run, writer(twin[w], how, ctx, geoms(twin), "twin"))
    if cnt.n == 0:
        return "ok", None
    it = Interrupted(cnt.step(at), exc, False)
    try:
        it.run(writer(g, how, ctx, V, ""))
    except BaseException as e:
        if isinstance(e, Violation):
            raise
    ctx.steps += it.n
    if it.fired:
        ctx.fault(exc.__name__)
    return "interrupted", None


def writer(g, how, ctx, V, more):
    p = os.path.join(ctx.tmp, "out%d%s" % (ctx.steps, more))
    grid = hasattr(g, "nbands")
    if how == "nodir":
        p = os.path.join(ctx.tmp, "no", "such", "dir")
        f = (lambda: g.to_geotiff(p + ".tif")) if grid else (lambda: g.to_geojson(p + ".json"))
    elif how == "gtiff" and grid:
        f = lambda: g.to_geotiff(p + ".tif")
    elif grid:
        f = lambda: g.to_aai(p + ".asc")
    elif how == "shp":
        f = lambda: g.to_shapefile(p)
    elif how == "list":
        f = lambda: write_shapefile(p + ".shp", *[v for v in V if v._geotype == g._geotype])
    else:
        f = lambda: g.to_geojson(p + ".json")
    return f


def shrinks(sc):
    n = len(sc["ops"])
    for size in sorted({n // 2, 1}, reverse=True):
        for i in range(0, n, size or 1):
            yield dict(sc, ops=sc["ops"][:i] + sc["ops"][i + (size or 1):])
    for i, op in enumerate(sc["ops"]):
        if op[0] == "interrupt" and len(op[3]) > 1:
            for at in op[3]:
                yield dict(sc, ops=sc["ops"][:i] + [op[:3] + [[at]] + op[4:]] + sc["ops"][i + 1:])
    for i in range(len(sc["late"])):
        yield dict(sc, late=sc["late"][:i] + sc["late"][i + 1:])
    for i, s in enumerate(sc["world"]):
        for c in (geo.shrink_grid(s) if "ny" in s else geo.shrink_geom(s)):
            if c.get("how") == "init" and c["bc"] == "default":
                c["bc"] = "compressed"
            yield dict(sc, world=sc["world"][:i] + [c] + sc["world"][i + 1:])
