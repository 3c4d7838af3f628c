"""Results do not depend on what memory held before."""
import ctypes
import os

import numpy as np

from .. import catalog_geom as VG, catalog_grid as RG, geo, gridhist as H
from ..rt import Violation, attempt, canon, first_diff, nprng, short
from ..seams import PLAN
from karta.raster import from_geotiffs, gridpoints, read_aai, read_geotiff, merge
from karta.raster.grid import RegularGrid, newgrid
from karta.vector import read_geojson, read_shapefile

M_PERTURB = -6
LIBC = ctypes.CDLL(None)
# operations that ask for uninitialised memory, or assemble blocks
KEEN = ["item", "values", "mask", "rows", "sample", "clip", "resample", "resize", "chunks", "coords", "center_coords",
        "vertex_coords", "maskpoly", "merge", "profile", "data_mask", "copy", "apply", "misc"]


def fill(byte):
    """everything handed out from here on holds this byte"""
    PLAN.fill = byte
    # glibc fills with the complement
    LIBC.mallopt(M_PERTURB, 0 if byte is None else ((~byte) & 0xff) or 1)


def gen_op(r, s):
    c = r.random()
    if "ny" not in s:
        return ["q", VG.gen(r, s["t"])] if c < 0.85 else ["write", r.choice(["geojson", "shp"])]
    if c < 0.5:
        return ["q", RG.gen(r, KEEN if r.random() < 0.75 else None)]
    if c < 0.7:
        return ["u", H.gen_update(r)]
    if c < 0.8:
        return ["write", r.choice(["gtiff", "gtiff", "lazy", "lazy", "multi", "aai"]), RG.gen(r)]
    if c < 0.87:
        return ["points", r.randint(0, 10 ** 6), r.randint(1, 12), r.random() < 0.3]
    if c < 0.92:
        return ["new", r.randint(0, 10 ** 6), r.random() < 0.5]
    if c < 0.96:
        return ["apart", r.randint(-9, 9), r.randint(-9, 9), RG.gen(r)]
    return ["derived", RG.gen(r, ["resize", "clip", "resample", "merge", "maskpoly", "copy", "apply"]), RG.gen(r, KEEN)]


def generate(r, tier, i):
    if r.random() < 0.7:
        s = H.gen_grid(r)
    else:
        s = geo.geom(r, None, None, maxv=r.choice([5, 8, 70]))
        if s["t"] in ("Multipolygon",):
            s = geo.geom(r, "Multipolygon", None, maxv=6)
    ops = [gen_op(r, s) for _ in range(r.randint(2, 7))]
    a = r.choice([0x00, 0xff, 0x01, 0x7f])
    b = r.choice([x for x in (0x00, 0xff, 0x3f, 0x55, 0xc1) if x != a])
    return {"s": s, "ops": ops, "fills": [a, b, r.choice([0x40, 0x80, 0x11])]}


def read_bytes(p):
    with open(p, "rb") as f:
        return f.read()


def perform(sc, ctx, tag):
    s = sc["s"]
    out = []
    grid = "ny" in s
    if grid:
        g, m = H.build(s)
    else:
        g, m = geo.build_geom(s), None
    W = [g]
    out.append(["built", canon(g)])

    def q(x, op):
        return RG.ask(x, op) if hasattr(x, "nbands") else VG.ask(x, op, W)
    for n, op in enumerate(sc["ops"]):
        k = op[0]
        p = os.path.join(ctx.tmp, "%s-%d" % (tag, n))
        before = PLAN.uninit
        try:
            if k == "q":
                a = q(g, op[1])
            elif k == "u" and grid:
                f, new = H.prepare(g, op[1], m)
                if f is None:
                    continue
                st, e = attempt(f)
                a = [st, canon(H.state(g)), canon(g.nodata)] if st == "ok" else ["raised", type(e).__name__]
                m = new if st == "ok" else H.Model(H.state(g), g.nodata)
            elif k == "write" and grid:
                if op[1] == "aai":
                    g.to_aai(p + ".asc")
                    a = ["ok", read_bytes(p + ".asc").decode("latin-1"), canon(read_aai(p + ".asc"))]
                else:
                    g.to_geotiff(p + ".tif")
                    kw = {} if op[1] == "gtiff" else {"in_memory": False}
                    x = from_geotiffs(p + ".tif", **kw) if op[1] == "multi" else read_geotiff(p + ".tif", **kw)
                    a = ["ok", read_bytes(p + ".tif").hex(), canon(x), q(x, op[2])]
            elif k == "write":
                if op[1] == "geojson":
                    g.to_geojson(p + ".json", force_wgs84=False)
                    a = ["ok", read_bytes(p + ".json").decode(), canon(read_geojson(p + ".json", crs=g.crs))]
                else:
                    g.to_shapefile(p)
                    a = ["ok", read_bytes(p + ".shp").hex(), read_bytes(p + ".dbf").hex()[16:], canon(read_shapefile(p))]
            elif k == "points" and grid:
                x, y = RG.some_xy(g, op[1], op[2], 0.0, 0.95)
                z = nprng(op[1]).standard_normal(op[2])
                if op[3]:
                    z = (z * 10).astype(np.int32)
                t = list(g.transform[:4]) + [0, 0]
                t[0], t[1] = min(x), min(y)
                a = ["ok", canon(gridpoints(np.array(x), np.array(y), z, t, g.crs))]
            elif k == "new" and grid:
                x0, y0, x1, y1 = g.bbox()
                r = g.resolution
                a = ["ok", canon(newgrid((min(x0, x1), min(y0, y1), max(x0, x1), max(y0, y1)), resolution=(abs(r[0]), abs(r[1])),
                                         dtype=np.dtype(s["dt"]), crs=g.crs))]
            elif k == "apart" and grid:
                # a mosaic with a gap
                t = list(g.transform)
                o = RegularGrid([t[0] + op[1] * t[2], t[1] + op[2] * t[3]] + t[2:], values=g[:, :, :], crs=g.crs, nodata_value=g.nodata)
                x = merge([g, o])
                a = ["ok", canon(x), q(x, op[3])]
            elif k == "derived" and grid:
                with np.errstate(all="ignore"):
                    x = RG.Q[op[1][0]][1](g, *op[1][1:])
                x = x[0] if isinstance(x, (list, tuple)) else x
                a = ["ok", canon(x), q(x, op[2])]
            else:
                continue
        except Exception as e:
            a = ["raised", type(e).__name__]
        ctx.mark(k, s["bc"] if "bc" in s else s["t"], op[1][0] if k in ("q", "u", "derived") else op[1] if k == "write" else "",
                 a[0], PLAN.uninit > before)
        out.append([short(op, 300), a])
    out.append(["at the end", canon(g)])
    return out


def execute(sc, ctx):
    runs = []
    for n, byte in enumerate(sc["fills"]):
        before = PLAN.uninit
        fill(byte)
        try:
            runs.append(perform(sc, ctx, "f%d" % n))
        finally:
            fill(None)
        ctx.fault("uninitialised array filled", PLAN.uninit - before)
        ctx.fault("malloc perturbed")
        ctx.steps += len(runs[-1])
    for n in range(1, len(runs)):
        for a, b in zip(runs[0], runs[n]):
            if a != b:
                raise Violation("memory", "%s depends on the content of fresh memory (0x%02x or 0x%02x): %s" % (
                    a[0], sc["fills"][0], sc["fills"][n], first_diff(a, b)))


def shrinks(sc):
    n = len(sc["ops"])
    for size in sorted({n // 2, 1}, reverse=True):
        for i in range(0, n, size or 1):
            yield dict(sc, ops=sc["ops"][:i] + sc["ops"][i + (size or 1):])
    for c in (geo.shrink_grid(sc["s"]) if "ny" in sc["s"] else geo.shrink_geom(sc["s"])):
        if c.get("how") == "init" and c["bc"] == "default":
            c["bc"] = "compressed"
        yield dict(sc, s=c)
