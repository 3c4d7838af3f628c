"""A grid holds exactly what its history of updates says."""
import numpy as np

from .. import catalog_grid as CG, geo, gridhist as H
from ..rt import Violation, attempt, canon, first_diff, must, short
from ..seams import PLAN
from karta.raster import RegularGrid

READS = ["item", "values", "mask", "rows"]


def generate(r, tier, i):
    ng = r.choice([1, 1, 2, 2, 3])
    grids = [H.gen_grid(r)] + [H.gen_grid(r, big=False) for _ in range(ng - 1)]
    ops = []
    for _ in range(r.randint(3, 14)):
        g = r.randrange(ng + 1)
        c = r.random()
        if c < 0.45:
            ops.append(["up", g, H.gen_update(r)])
        elif c < 0.6:
            ops.append(["read", g, CG.gen(r, READS)])
        elif c < 0.7:
            ops.append(["derive", g, r.randrange(ng + 1), r.choice(["copy", "copy", "apply", "values", "poly", "bands"]), r.randint(0, 999)])
        elif c < 0.77:
            ops.append(["scribble", g, CG.gen(r, READS)])
        elif c < 0.87:
            ops.append(["bad", g, r.choice(["shape", "step", "type", "callback", "callback2", "length", "plane", "maskshape"]), CG.gen_key(r, step=False), r.randint(0, 999)])
        else:
            ops.append(["fail", g, H.gen_update(r), r.choice([["compress"], ["decompress"], ["alloc"], ["compress", "decompress", "alloc"]]),
                        r.choice([0, 0, 1, 2, 3, 5, 8]), r.choice(["MemoryError", "OSError", "error"])])
    return {"grids": grids, "ops": ops}


EXC = {"MemoryError": MemoryError, "OSError": OSError, "error": RuntimeError}


def nchunks(s):
    if s["bc"] == "tiny":
        return min(-(-s["ny"] // s["chunk"][0]) * -(-s["nx"] // s["chunk"][1]), 9)
    return -(-s["ny"] // 256) * -(-s["nx"] // 256)


def execute(sc, ctx):
    PLAN.disarm()
    world = {}
    for i, s in enumerate(sc["grids"]):
        g, m = H.build(s)
        world[i] = [g, m, s]

    def check(when):
        for i, (g, m, s) in sorted(world.items()):
            d = H.differs(must("unreadable", "%s: reading grid %d" % (when, i), H.state, g), m)
            if d:
                raise Violation("cells", "%s: grid %d: %s" % (when, i, d))
            if not H.same_nodata(g.nodata, m.nodata):
                raise Violation("nodata", "%s: grid %d has nodata %r, expected %r" % (when, i, g.nodata, m.nodata))
            if tuple(g.size) != m.size or g.nbands != m.nbands or tuple(g.transform) != tuple(s["t"]):
                raise Violation("header", "%s: grid %d: size %r, %d bands, %r" % (when, i, g.size, g.nbands, g.transform))

    check("construction")
    for op in sc["ops"]:
        if op[1] not in world:
            continue
        g, m, s = world[op[1]]
        ctx.steps += 1
        ctx.count(op[0])
        cls = [s["bc"], s["dt"], m.nbands > 1, nchunks(s), s["how"]]
        if op[0] == "up":
            f, new = H.prepare(g, op[2], m)
            if f is None:
                continue
            must("update-failed", "update %s" % short(op[2]), f)
            world[op[1]][1] = new
            ctx.mark("up", op[2][0], op[2][2] if op[2][0] == "set" else op[2][3:5] if op[2][0] == "mask" else "", cls)
        elif op[0] in ("read", "scribble"):
            exp = reference(m, op[2])
            got = must("read-failed", "reading %s" % short(op[2]), CG.Q[op[2][0]][1], g, *op[2][1:])
            a, b = canon(exp), canon(got)
            if a != b:
                raise Violation("read", "%s of grid %d (%r): %s" % (short(op[2]), op[1], m.v.shape, first_diff(a, b)))
            ctx.mark("read", op[2][0], op[2][1][0] if op[2][0] in ("item", "values") else "", cls)
            if op[0] == "scribble" and op[2][0] != "rows" and isinstance(got, np.ndarray) and got.flags.writeable:
                got[...] = 99
        elif op[0] == "derive":
            ng, nm = derive(op, g, m)
            if ng is None:
                continue
            ns = dict(s, bc="compressed" if op[3] in ("values", "poly") else s["bc"])
            world[op[2]] = [ng, nm, ns]
            ctx.mark("derive", op[3], cls)
        elif op[0] == "bad":
            bad(op, g, m, ctx, cls)
        elif op[0] == "fail":
            f, new = H.prepare(g, op[2], m)
            if f is None:
                continue
            PLAN.arm(op[3], op[4], EXC[op[5]])
            try:
                st, e = attempt(f)
            finally:
                fired = PLAN.disarm()
            have = must("unreadable", "reading after a failed update", H.state, g)
            ctx.mark("fail", op[2][0], fired, op[4], st, cls[:2])
            if fired:
                ctx.fault("failing %s" % fired)
            if st == "ok":
                d = H.differs(have, new)
                if d:
                    raise Violation("unreported", "%s during %s was not reported, but %s" % (fired or "nothing", short(op[2]), d))
                world[op[1]][1] = new
            else:
                if not fired:
                    raise Violation("update-failed", "update %s raised %s: %s" % (short(op[2]), type(e).__name__, e))
                d = H.between(have, m, new)
                if d:
                    raise Violation("neither", "%s failed (%s): %s" % (short(op[2]), fired, d))
                if not (H.same_nodata(g.nodata, m.nodata) or H.same_nodata(g.nodata, new.nodata)):
                    raise Violation("nodata", "after a failed update nodata is %r" % g.nodata)
                if H.idempotent(op[2]):
                    must("not-repeatable", "repeating %s" % short(op[2]), f)
                    world[op[1]][1] = new
                else:
                    cur = H.Model(have, g.nodata)
                    world[op[1]][1] = cur
        check("after %s" % short(op))


def reference(m, q):
    if q[0] in ("item", "values"):
        return m.v[CG.key(q[1], m)]
    if q[0] == "mask":
        return m.v[CG.mask(m, *q[1:])]
    if m.nbands == 1:
        return [m.v[i:i + 1, :, 0] for i in range(m.size[0])]
    return [m.v[i].T for i in range(m.size[0])]


def derive(op, g, m):
    if op[3] == "copy":
        return g.copy(), m.copy()
    if op[3] == "apply":
        _, new = H.prepare(g, ["apply", "inc"], m)
        return g.apply(H.FN["inc"]), new
    if op[3] == "poly":
        u = ["poly", op[4]]
        f, new = H.prepare(g, u, m)
        # out of place the type of the nodata value decides too
        if f is None or np.where(True, m.v[:1, :1, :1], m.nodata).dtype != m.v.dtype:
            return None, None
        return g.mask_by_poly(CG.poly(g, op[4])), new
    if op[3] == "bands":
        # a grid built on copies of another grid's bands
        return RegularGrid(g.transform, bands=g.copy().bands, crs=g.crs, nodata_value=g.nodata), m.copy()
    return RegularGrid(g.transform, values=g[:, :, :], crs=g.crs, nodata_value=g.nodata), m.copy()


class Oops(Exception):
    pass


def bad(op, g, m, ctx, cls):
    """updates that have to be rejected, without effect"""
    kind = op[2]
    dt = m.v.dtype
    key = CG.key(op[3], m)
    ys, xs, bs = H.key_region(op[3], m)
    shape = (ys.stop - ys.start, xs.stop - xs.start, bs.stop - bs.start)
    oldnew = None
    if kind == "shape":
        f = lambda: g.__setitem__(key, H.values(op[4], (shape[0] + 1, shape[1] + 2, shape[2] + 3), dt))
    elif kind == "plane":
        f = lambda: g.__setitem__(key, H.values(op[4], (shape[0] + 1, shape[1] + 1), dt))
    elif kind == "step":
        f = lambda: g.__setitem__((slice(None, None, 2), slice(None)), 1)
    elif kind == "type":
        k = [("a", 1), (1.5, slice(None)), "x", 3, (0, 0, "b"), (0, 0, 0, 0), (slice(None), None)][op[4] % 7]
        f = lambda: g.__setitem__(k, 1)
    elif kind == "callback":
        def f():
            def fn(v):
                v[...] = 5
                raise Oops("callback")
            g.apply(fn, inplace=True)
    elif kind == "callback2":
        f = lambda: g.apply(lambda v: np.zeros(v.size + 2, dtype=dt), inplace=True)
        if m.isdata().sum() == 0:
            return
        oldnew = 0
    elif kind == "length":
        mask = CG.mask(m, op[4], 0.5, 2)
        if mask.sum() == 0:
            return
        f = lambda: g.__setitem__(mask, H.values(op[4], (int(mask.sum()) + 1,), dt))
    else:
        mask = np.ones((m.size[0] + 1, m.size[1]), dtype=bool)
        f = lambda: g.__setitem__(mask, 1)
    st, e = attempt(f)
    ctx.mark("bad", kind, st, type(e).__name__, cls)
    if st == "ok":
        raise Violation("accepted", "an update that makes no sense (%s) was accepted" % short(op))
    have = must("unreadable", "reading after a rejected update", H.state, g)
    d = H.differs(have, m)
    if d:
        raise Violation("rejected-effect", "%s was rejected (%s) but %s" % (short(op), type(e).__name__, d))
    ctx.fault("rejected update")


def shrinks(sc):
    n = len(sc["ops"])
    for size in {n // 2, 1}:
        if size and n > 1:
            for i in range(0, n, size):
                c = sc["ops"][:i] + sc["ops"][i + size:]
                if c:
                    yield dict(sc, ops=c)
    if len(sc["grids"]) > 1:
        yield dict(sc, grids=sc["grids"][:-1])
    for i, s in enumerate(sc["grids"]):
        for c in geo.shrink_grid(s):
            if c["how"] == "init" and c["bc"] == "default":
                c["bc"] = "compressed"
            yield dict(sc, grids=sc["grids"][:i] + [c] + sc["grids"][i + 1:])
