"""An interrupted in-place update leaves every cell old or new."""
from .. import geo, gridhist as H
from ..rt import Violation, attempt, canon, must, short
from ..sched import Interrupted

EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "SystemExit": SystemExit}


def gen_at(r):
    return round(r.random(), 4) if r.random() < 0.4 else [round(r.random(), 4), round(r.random(), 3)]


def generate(r, tier, i):
    g = H.gen_grid(r, big=False)
    if g["bc"] in ("default", "compressed") and r.random() < 0.5:
        g["bc"] = "tiny"
    ops = []
    for _ in range(r.randint(1, 4)):
        ops.append([H.gen_update(r), gen_at(r), r.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "SystemExit"]),
                    r.random() < 0.75, r.random() < 0.4])
    return {"grid": g, "ops": ops}


def execute(sc, ctx):
    g, m = H.build(sc["grid"])
    for u, frac, exc, again, libs in sc["ops"]:
        # length of the undisturbed execution, on a twin
        twin = g.copy()
        f, new = H.prepare(twin, u, m)
        if f is None:
            continue
        count = Interrupted(libs=libs)
        must("update-failed", "update %s" % short(u), count.run, f)
        d = H.differs(H.state(twin), new)
        if d:
            raise Violation("cells", "%s: %s" % (short(u), d))
        f, new = H.prepare(g, u, m)
        k = count.step(frac)
        it = Interrupted(k, EXC[exc], libs)
        try:
            it.run(f)
            e = None
        except BaseException as x:
            e = x
        ctx.steps += it.n
        ctx.count("update")
        where = "%s at %s" % (exc, it.where)
        ctx.mark(u[0], exc, it.where, sc["grid"]["bc"])
        have = must("unusable", "%s interrupted by %s: reading the grid" % (short(u), where), H.state, g)
        if it.fired:
            ctx.fault(exc)
            if e is None:
                # swallowed: then at least the update has to be complete
                d = H.differs(have, new)
                if d:
                    raise Violation("swallowed", "%s interrupted by %s did not raise, and %s" % (short(u), where, d))
            elif not isinstance(e, EXC[exc]):
                raise Violation("masked", "%s interrupted by %s raised %s: %s" % (short(u), where, type(e).__name__, e))
        elif e is not None:
            raise Violation("update-failed", "%s raised %s: %s" % (short(u), type(e).__name__, e))
        d = H.between(have, m, new)
        if d:
            raise Violation("neither", "%s interrupted by %s: %s" % (short(u), where, d))
        if not (H.same_nodata(g.nodata, m.nodata) or H.same_nodata(g.nodata, new.nodata)):
            raise Violation("nodata", "%s interrupted by %s: nodata is %r" % (short(u), where, g.nodata))
        if tuple(g.size) != m.size or g.nbands != m.nbands or tuple(g.transform) != tuple(sc["grid"]["t"]):
            raise Violation("header", "%s interrupted by %s: size %r, %d bands" % (short(u), where, g.size, g.nbands))
        if again and H.idempotent(u):
            must("not-repeatable", "repeating %s after %s" % (short(u), where), f)
            d = H.differs(H.state(g), new)
            if d:
                raise Violation("not-completed", "%s interrupted by %s, then repeated: %s" % (short(u), where, d))
            if not H.same_nodata(g.nodata, new.nodata):
                raise Violation("nodata", "%s interrupted by %s, then repeated: nodata is %r" % (short(u), where, g.nodata))
            m = new
        else:
            m = H.Model(have, g.nodata)


def shrinks(sc):
    for i in range(len(sc["ops"])):
        if len(sc["ops"]) > 1:
            yield dict(sc, ops=sc["ops"][:i] + sc["ops"][i + 1:])
    for c in geo.shrink_grid(sc["grid"]):
        if c["how"] == "init" and c["bc"] == "default":
            c["bc"] = "compressed"
        yield dict(sc, grid=c)
