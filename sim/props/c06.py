"""A grid opened without reading it answers like the same grid in memory."""
import numpy as np

from .. import catalog_grid as CG, disk as D, geo
from ..formats import FORMATS
from ..iohist import Files
from ..rt import Violation, attempt, canon, collect, first_diff, must, short
from karta.raster import read_geotiff, from_geotiffs, SimpleBand

HEAVY = ("chunks", "maskpoly", "profile")


def generate(r, tier, i):
    fmt = FORMATS["gtiff"]
    s = fmt.gen(r, small=r.random() < 0.6)
    if r.random() < 0.2:
        s["ny"], s["nx"] = r.randint(30, 70), r.randint(30, 70)
    hows = ["all", "all", "pick", "multi"]
    doc2 = None
    if r.random() < 0.45:
        # a second file of the same cells' places, with other values and another layout
        t = fmt.gen(r, small=True)
        doc2 = dict(s, vs=t["vs"], kind=s["kind"], nb=r.choice([1, s["nb"]]), compress=t["compress"], co=t["co"])
        hows += ["second", "both", "both", "both3"]
    ops = [["open", 0, r.choice(hows), round(r.random(), 2)]]
    names = [n for n in CG.NAMES if n not in HEAVY or s["ny"] * s["nx"] < 300]
    for _ in range(r.randint(3, 9)):
        c = r.random()
        h = r.randint(0, 2)
        if c < 0.2:
            ops.append(["open", h, r.choice(hows[1:]), round(r.random(), 2)])
        elif c < 0.5:
            ops.append(["ask", h, CG.gen(r, names)])
        elif c < 0.62:
            ops.append(["fault", h, CG.gen(r, names), r.choice([0, 0, 1, 2, 5]), r.choice(["err", "eof"])])
            ops.append(["ask", h, CG.gen(r, names)])
        elif c < 0.7:
            ops.append(["block", h, [CG.gen_axis(r, False, False), CG.gen_axis(r, False, False)], round(r.random(), 2)])
        elif c < 0.78:
            ops.append(["keepband", h, round(r.random(), 2)])
        elif c < 0.88:
            ops.append(["drop", h])
        elif c < 0.92:
            ops.append(["rows", h])
        else:
            ops.append(["gc"])
    return {"doc": s, "doc2": doc2, "ops": ops}


def execute(sc, ctx):
    s = sc["doc"]
    fmt = FORMATS["gtiff"]
    s2 = sc.get("doc2")
    w = Files(ctx, None, [["gtiff", s]] + ([["gtiff", s2]] if s2 else []))
    path = w.stem(0) + ".tif"
    w.disk.reset()
    must("write-failed", "writing", fmt.write, w.obj(0), s, w.stem(0))
    if s2:
        path2 = w.stem(1) + ".tif"
        must("write-failed", "writing", fmt.write, w.obj(1), s2, w.stem(1))
    handles, bands = {}, []

    def read(mem, how, frac):
        kw = {"bandclass": SimpleBand}
        if how == "multi":
            return from_geotiffs(path, path, in_memory=mem, **kw)
        if how == "both":
            return from_geotiffs(*([path, path2] if frac < 0.5 else [path2, path]), in_memory=mem, **kw)
        if how == "both3":
            return from_geotiffs(path, path2, path, in_memory=mem, **kw)
        if how == "second":
            return read_geotiff(path2, in_memory=mem, **kw)
        if how == "pick":
            return read_geotiff(path, in_memory=mem, ibands=[1 + min(int(frac * s["nb"]), s["nb"] - 1), 1], **kw)
        return read_geotiff(path, in_memory=mem, **kw)

    def compare(what, a, b):
        if a != b:
            raise Violation("differs", "%s on a disk-backed grid: %s (in memory: %s)" % (what, short(b, 100), first_diff(a, b)))

    for op in sc["ops"]:
        k = op[0]
        if k == "gc":
            collect()
            ctx.count("gc")
            continue
        if k == "open":
            w.disk.reset()
            ref = read(True, op[2], op[3])
            if op[2] in ("both", "both3"):
                # what a grid of several files holds is known from the documents
                each = [s, s2] if op[2] == "both" and op[3] < 0.5 else [s2, s] if op[2] == "both" else [s, s2, s]
                exp = np.dstack([geo.grid_values(d)[:, :, 0] for d in each])
                if s["dt"] == "i8":
                    exp = exp.astype("i4")
                compare("the bands of several files", canon(exp), canon(np.array(ref[:, :, :])))
            lazy = must("unreadable", "opening without reading", read, False, op[2], op[3])
            handles[op[1]] = (lazy, ref)
            continue
        if op[1] not in handles:
            continue
        lazy, ref = handles[op[1]]
        if k == "drop":
            del handles[op[1]]
            lazy = None
        elif k == "keepband":
            j = min(int(op[2] * lazy.nbands), lazy.nbands - 1)
            bands.append((lazy.bands[j], canon(ref.bands[j].getblock(0, 0, *ref.size))))
            del handles[op[1]]
            lazy = None
        elif k == "ask":
            w.disk.reset()
            a = CG.ask(ref, op[2])
            b = CG.ask(lazy, op[2])
            w.account()
            ctx.count("query")
            ctx.mark("ask", op[2][0], s["dt"], s["nb"] > 1, s["compress"], sorted(s["co"]), a[0] == "raised")
            compare(op[2][0], a, b)
        elif k == "block":
            ny, nx = ref.size
            ys, xs = CG.axis(op[2][0], ny), CG.axis(op[2][1], nx)
            y0, y1, _ = ys.indices(ny)
            x0, x1, _ = xs.indices(nx)
            j = min(int(op[3] * ref.nbands), ref.nbands - 1)
            a = canon(ref.bands[j].getblock(y0, x0, y1 - y0, x1 - x0))
            b = must("query-failed", "getblock", lazy.bands[j].getblock, y0, x0, y1 - y0, x1 - x0)
            compare("getblock", a, canon(b))
            if b.flags.writeable:
                b.fill(77)          # what the caller does with its copy is its own business
            b = must("query-failed", "getblock", lazy.bands[j].getblock, y0, x0, y1 - y0, x1 - x0)
            compare("getblock after the block got before was changed by its owner", a, canon(b))
        elif k == "rows":
            # an iteration under way outlives the other handles
            it = iter(lazy.values)
            it2 = iter(ref.values)
            compare("first row", canon(next(it2)), canon(next(it)))
            collect()
            compare("later rows", canon(list(it2)), canon(list(it)))
        elif k == "fault":
            a = CG.ask(ref, op[2])
            w.disk.reset()
            if op[4] == "err":
                w.disk.rule(D.READ, op[3], D.ERR, 5, True, ".tif")
            else:
                w.disk.rule(D.READ, op[3], D.EOF, 0, True, ".tif")
            b = CG.ask(lazy, op[2])
            n = sum(1 for x in w.disk.steps() if x["fault"])
            w.account()
            w.disk.reset()
            ctx.fault("read %s" % op[4], n)
            ctx.mark("fault", op[2][0], op[4], op[3], min(n, 3), b[0] == "raised")
            if b[0] != "raised" or n == 0:
                compare("%s with a failing disk" % op[2][0], a, b)
        lazy = ref = None
    collect()
    for lazy, ref in handles.values():
        compare("all values at the end", canon(ref[:, :, :]), canon(must("query-failed", "reading", lambda: lazy[:, :, :])))
    for b, exp in bands:
        compare("a band kept after its grid", exp, canon(must("query-failed", "getblock", b.getblock, 0, 0, *b.size)))
    del handles, bands
    collect()


def shrinks(sc):
    n = len(sc["ops"])
    for i in range(n):
        if n > 1:
            yield dict(sc, ops=sc["ops"][:i] + sc["ops"][i + 1:])
    for c in FORMATS["gtiff"].shrink(sc["doc"]):
        yield dict(sc, doc=c)
