"""Threads reading a grid while one updates it see only real values."""
import numpy as np

from .. import catalog_grid as CG, geo, gridhist as H, threads as T
from ..formats import FORMATS
from ..iohist import Files
from ..rt import Violation, canon, collect, first_diff, must, short
from ..sched import Scheduler
from .c07 import reference
from karta.raster import read_geotiff

CELLS = ["item", "values", "mask", "rows"]
LIGHT = [n for n in CG.NAMES if n not in ("chunks", "maskpoly", "profile", "merge")]


def gen_read(r):
    c = r.random()
    if c < 0.75:
        return ["q", CG.gen(r, CELLS)]
    if c < 0.85:
        return ["stat", r.choice(["max", "min", "minmax"])]
    if c < 0.93:
        return ["near", round(r.random(), 3), round(r.random(), 3)]
    return ["copy"]


def band_update(r, b):
    if r.random() < 0.5:
        return ["block", CG.gen_axis(r, False, False), CG.gen_axis(r, False, False), b, r.randint(0, 10 ** 6)]
    return ["set", ["3", CG.gen_axis(r, True, False), CG.gen_axis(r, True, False), ["i", b, False]], r.choice(["scalar", "full"]), r.randint(0, 10 ** 6)]


def generate(r, tier, i):
    mode = r.choice(["one", "one", "bands", "readers", "grids", "lazy"])
    n = r.choice([2, 2, 3])
    if mode == "lazy":
        s = FORMATS["gtiff"].gen(r, small=True)
        s["rd"] = {"in_memory": False, "bc": None, "ibands": "all", "pick": 0, "multi": False}
    else:
        s = H.gen_grid(r, big=False)
        s["bc"] = r.choice(["tiny", "tiny", "tiny", "simple", "compressed"])
        s["ny"], s["nx"] = min(s["ny"], 8), min(s["nx"], 8)
    if mode == "bands":
        s["nb"] = n
    progs = []
    for t in range(n):
        if mode in ("readers", "lazy"):
            progs.append([["ask", CG.gen(r, LIGHT)] for _ in range(r.randint(1, 3))])
        elif mode == "one" and t > 0:
            progs.append([gen_read(r) for _ in range(r.randint(1, 4))])
        elif mode == "bands":
            p = []
            for _ in range(r.randint(1, 3)):
                p.append(["up", band_update(r, (t + 0.5) / n)] if r.random() < 0.7 else gen_read(r))
            progs.append(p)
        else:
            progs.append([["up", H.gen_update(r)] for _ in range(r.randint(1, 3))])
    return {"mode": mode, "grid": s, "progs": progs, "sw": T.gen_schedules(r, n, 2)}


def execute(sc, ctx):
    if sc["mode"] in ("readers", "lazy"):
        return readers(sc, ctx)
    if sc["mode"] == "grids":
        return grids(sc, ctx)
    return mixed(sc, ctx)


def pairs_of(sc, at):
    def f(a, b):
        def name(t):
            p = sc["progs"][t]
            return p[min(at[t], len(p) - 1)][:1] + [str(p[min(at[t], len(p) - 1)][1:2])[:12]] if p else []
        return [name(a), name(b), sc["mode"], sc["grid"]["bc"]]
    return f


def run_twice(make, sc, ctx):
    """the execution without switches, then the scheduled one"""
    fns, check, at = make()
    res, s = T.run(fns, [], 0, ctx)
    check(res, "one after the other")
    total, places = s.n, T.shared(s.places)
    for sw in sc["sw"]:
        fns, check, at = make()
        res, s = T.run(fns, sw, total, ctx, pairs_of(sc, at), places)
        check(res, "interleaved")


def readers(sc, ctx):
    if sc["mode"] == "lazy":
        w = Files(ctx, None, [["gtiff", sc["grid"]]])
        must("write-failed", "writing", FORMATS["gtiff"].write, w.obj(0), sc["grid"], w.stem(0))
        fresh = lambda: read_geotiff(w.stem(0) + ".tif", in_memory=False)
    else:
        fresh = lambda: H.build(sc["grid"])[0]
    expected = [[CG.ask(fresh(), op[1]) for op in p] for p in sc["progs"]]
    keep = []

    def make():
        g = fresh()
        keep.append(g)
        at = [0] * len(sc["progs"])

        def body(t):
            out = []
            for k, op in enumerate(sc["progs"][t]):
                at[t] = k
                out.append(CG.ask(g, op[1]))
            return out

        def check(res, when):
            for t, (v, e) in enumerate(res):
                if e is not None:
                    raise Violation("raised", "%s: reader thread raised %s: %s" % (when, type(e).__name__, e))
                for op, a, b in zip(sc["progs"][t], expected[t], v):
                    ctx.count("query")
                    if a != b:
                        raise Violation("differs", "%s: %s gave %s; alone: %s" % (when, short(op[1]), short(b), first_diff(a, b)))
            for t, p in enumerate(sc["progs"]):
                for op, a in zip(p, expected[t]):
                    b = CG.ask(g, op[1])
                    if a != b:
                        raise Violation("differs-later", "%s, afterwards: %s: %s" % (when, short(op[1]), first_diff(a, b)))
        return [lambda t=t: body(t) for t in range(len(sc["progs"]))], check, at
    run_twice(make, sc, ctx)
    keep[:] = []
    collect()


def grids(sc, ctx):
    """each thread updates its own grid"""
    def make():
        gs = [H.build(dict(sc["grid"], vs=sc["grid"]["vs"] + t)) for t in range(len(sc["progs"]))]
        ends = []
        at = [0] * len(gs)
        bodies = []
        for t, (g, m) in enumerate(gs):
            todo = []
            for op in sc["progs"][t]:
                f, m = H.prepare(g, op[1], m)
                if f is not None:
                    todo.append(f)
            ends.append(m)

            def body(todo=todo, t=t):
                for k, f in enumerate(todo):
                    at[t] = k
                    f()
            bodies.append(body)

        def check(res, when):
            for t, (v, e) in enumerate(res):
                if e is not None:
                    raise Violation("raised", "%s: thread raised %s: %s" % (when, type(e).__name__, e))
                d = H.differs(H.state(gs[t][0]), ends[t])
                if d:
                    raise Violation("lost", "%s: the grid of thread %d: %s" % (when, t, d))
        return bodies, check, at
    run_twice(make, sc, ctx)


def mixed(sc, ctx):
    """updates and reads of one grid; updates of different threads concern
    different bands"""
    def make():
        g, m0 = H.build(sc["grid"])
        nt = len(sc["progs"])
        at = [0] * nt
        # per thread: list of [function, model after, started, ended]
        ups = {}
        final = m0.copy()
        for t in range(nt):
            m = m0
            ups[t] = []
            for op in sc["progs"][t]:
                if op[0] != "up":
                    continue
                f, m2 = H.prepare(g, op[1], m)
                ups[t].append([f, m2, None, None])
                m = m2
            if ups[t]:
                ch = ~H.equal(m.v, m0.v)
                final.v = np.where(ch, m.v, final.v)
                if sc["mode"] == "one":
                    final = m
        clock = {"s": None}
        reads = []

        def now():
            from .. import sched
            return sched._current.n

        def body(t):
            k = 0
            for i, op in enumerate(sc["progs"][t]):
                at[t] = i
                if op[0] == "up":
                    u = ups[t][k]
                    k += 1
                    if u[0] is None:
                        u[2] = u[3] = now()
                        continue
                    u[2] = now()
                    u[0]()
                    u[3] = now()
                else:
                    a = now()
                    v = do_read(g, op)
                    reads.append((t, op, a, now(), v))

        def check(res, when):
            for t, (v, e) in enumerate(res):
                if e is not None:
                    raise Violation("raised", "%s: thread %d raised %s: %s" % (when, t, type(e).__name__, e))
            d = H.differs(H.state(g), final)
            if d:
                raise Violation("lost", "%s: at the end %s" % (when, d))
            for t, op, a, b, v in reads:
                ctx.count("read")
                # states of each writer's cells the read may show
                cands = []
                for w in range(nt):
                    seq = [(m0, -1, -1)] + [(u[1], u[2], u[3]) for u in ups[w]]
                    if len(seq) == 1:
                        continue
                    lo = max(k for k, x in enumerate(seq) if x[2] is not None and x[2] <= a)
                    hi = max(k for k, x in enumerate(seq) if x[1] is not None and x[1] <= b)
                    cands.append((w, [x[0] for x in seq[lo:hi + 1]], [x[0] for x in seq]))
                judge(when, op, v, m0, cands, sc)
        return [lambda t=t: body(t) for t in range(nt)], check, at
    run_twice(make, sc, ctx)


def do_read(g, op):
    with np.errstate(all="ignore"):
        if op[0] == "q":
            r = CG.Q[op[1][0]][1](g, *op[1][1:])
            return [np.array(x) for x in r] if isinstance(r, list) else np.array(r)
        if op[0] == "stat":
            return np.array(getattr(g, op[1])())
        if op[0] == "copy":
            return np.array(g.copy()[:, :, :])
        x, y = CG.at(g, 0.02 + 0.96 * op[1], 0.02 + 0.96 * op[2])
        return np.array(g.sample_nearest(x, y))


def owner(w, sc, shape):
    """the cells a writing thread is about"""
    own = np.zeros(shape, dtype=bool)
    if sc["mode"] == "one":
        own[...] = True
    else:
        n = len(sc["progs"])
        own[:, :, min(int((w + 0.5) / n * shape[2]), shape[2] - 1)] = True
    return own


def judge(when, op, v, m0, cands, sc):
    if op[0] in ("stat", "near"):
        pool = [m0.v] + [m.v for _, _, every in cands for m in every]
        for x in np.ravel(v).tolist():
            if x == x and not any((p == x).any() for p in pool):
                raise Violation("invented", "%s: %s gave %r, which no cell ever held" % (when, short(op), x))
        return
    q = op[1] if op[0] == "q" else ["item", ["2", ["s", 0.0, 1.0, 1], ["s", 0.0, 1.0, 1]]]
    got = v if isinstance(v, list) else [v]

    def ref(arr):
        r = reference(H.Model(arr, m0.nodata), q)
        return r if isinstance(r, list) else [r]
    parts = []
    covered = np.zeros(m0.v.shape, dtype=bool)
    for w, states, _ in cands:
        own = owner(w, sc, m0.v.shape)
        covered |= own
        parts.append((own, states))
    parts.append((~covered, [m0]))
    ok = None
    for own, states in parts:
        for m in states:
            r, o = ref(m.v), ref(own)
            if ok is None:
                ok = [np.zeros(np.shape(x), dtype=bool) for x in r]
            for k in range(len(r)):
                if np.shape(got[k]) != np.shape(r[k]):
                    raise Violation("shape", "%s: %s has shape %r, expected %r" % (when, short(op), np.shape(got[k]), np.shape(r[k])))
                ok[k] |= np.asarray(o[k]) & H.equal(got[k], np.asarray(r[k]))
    for k, good in enumerate(ok):
        if not np.all(good):
            i = tuple(int(x) for x in np.argwhere(~good)[0]) if np.ndim(good) else ()
            raise Violation("stale", "%s: %s shows %r at %r of part %d, not a value the cell had during the read"
                            % (when, short(op), got[k][i], i, k))


def shrinks(sc):
    for c in T.shrink_schedules(sc["sw"]):
        yield dict(sc, sw=c)
    for t, p in enumerate(sc["progs"]):
        for i in range(len(p)):
            if len(p) > 1 or t == len(sc["progs"]) - 1 > 0:
                yield dict(sc, progs=sc["progs"][:t] + [p[:i] + p[i + 1:]] + sc["progs"][t + 1:])
    if sc["mode"] != "lazy":
        for c in geo.shrink_grid(sc["grid"]):
            if sc["mode"] == "bands" and c["nb"] != sc["grid"]["nb"]:
                continue
            if c["how"] == "init" and c["bc"] == "default":
                c["bc"] = "compressed"
            yield dict(sc, grid=c)
