"""Threads sharing geometries get the answers a single thread gets."""
from .. import catalog_geom as CG, geo, threads as T
from ..rt import Violation, first_diff, short

SMALL = dict(maxv=5)


def gen_world(r, n):
    crs = r.choice(["cart", "cart", "wgs84", "web", "nsidc", "laea", "nad83"])
    return [geo.geom(r, None, crs if r.random() < 0.75 else None, maxv=5) for _ in range(n)]


def generate(r, tier, i):
    n = r.choice([2, 2, 3])
    world = gen_world(r, r.choice([1, 1, 2]))
    progs = []
    same = r.random() < 0.25
    twin = not same and r.random() < 0.6
    for t in range(n):
        p = []
        for k in range(r.randint(1, 3)):
            w = r.randrange(len(world))
            if twin and t and k < len(progs[0]):
                # the same calls, on the same object or another one of its kind
                name = progs[0][k][1][0]
                w = r.choice([x for x in range(len(world)) if name in CG.BY[world[x]["t"]]])
                p.append([w, CG.gen(r, world[w]["t"], [name])])
                continue
            names = [x for x in CG.BY[world[w]["t"]] if x not in CG.HEAVY or r.random() < 0.3] or None
            q = CG.gen(r, world[w]["t"], names)
            if same and r.random() < 0.6:
                # the same cached quantity, in different coordinate systems
                cached = [x for x in ("bbox", "extent", "length") if x in CG.BY[world[w]["t"]]]
                if cached:
                    q = CG.gen(r, world[w]["t"], cached)
            p.append([w, q])
        progs.append(p)
    return {"world": world, "progs": progs, "sw": T.gen_schedules(r, n, 3)}


def execute(sc, ctx):
    def fresh():
        return [geo.build_geom(s) for s in sc["world"]]

    # alone: each call on objects nobody used before
    expected = []
    for p in sc["progs"]:
        expected.append([])
        for w, q in p:
            W = fresh()
            expected[-1].append(CG.ask(W[w % len(W)], q, W))
    before = [CG.snapshot(g) for g in fresh()]

    def one(sw, total, when, places=None):
        W = fresh()
        at = [0] * len(sc["progs"])

        def body(t):
            out = []
            for k, (w, q) in enumerate(sc["progs"][t]):
                at[t] = k
                out.append(CG.ask(W[w % len(W)], q, W))
            return out

        def pairs(a, b):
            return [sc["progs"][a][at[a]][1][0], sc["progs"][b][at[b]][1][0]]
        res, s = T.run([lambda t=t: body(t) for t in range(len(sc["progs"]))], sw, total, ctx, pairs, places)
        for t, (v, e) in enumerate(res):
            if e is not None:
                raise Violation("raised", "%s: thread %d raised %s: %s" % (when, t, type(e).__name__, e))
            for (w, q), a, b in zip(sc["progs"][t], expected[t], v):
                ctx.count("query")
                if a != b:
                    raise Violation("differs", "%s: %s on a %s gave %s; alone: %s" % (
                        when, short(q), sc["world"][w % len(W)]["t"], short(b), first_diff(a, b)))
        for i, g in enumerate(W):
            now = CG.snapshot(g)
            if now != before[i]:
                raise Violation("changed", "%s: object %d changed: %s" % (when, i, first_diff(before[i], now)))
        for t, p in enumerate(sc["progs"]):
            for k, (w, q) in enumerate(p):
                b = CG.ask(W[w % len(W)], q, W)
                if b != expected[t][k]:
                    raise Violation("differs-later", "%s, afterwards: %s: %s" % (when, short(q), first_diff(expected[t][k], b)))
        return s
    s = one([], 0, "one after the other")
    total, places = s.n, T.shared(s.places)
    for sw in sc["sw"]:
        one(sw, total, "interleaved", places)


def shrinks(sc):
    for c in T.shrink_schedules(sc["sw"]):
        yield dict(sc, sw=c)
    for t, p in enumerate(sc["progs"]):
        for i in range(len(p)):
            if len(p) > 1 or (len(sc["progs"]) > 2 and t == len(sc["progs"]) - 1):
                q = [x for x in sc["progs"][:t] + [p[:i] + p[i + 1:]] + sc["progs"][t + 1:] if x]
                yield dict(sc, progs=q)
    for i, s in enumerate(sc["world"]):
        for c in geo.shrink_geom(s):
            yield dict(sc, world=sc["world"][:i] + [c] + sc["world"][i + 1:])
