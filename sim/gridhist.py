"""Updates of a grid described by JSON, with plain numpy as the reference.

An update is [name, parameters...]; `effect` applies it to a model (a numpy
array (rows, columns, bands) and a nodata value) and `perform` to a grid."""
import numpy as np

from . import catalog_grid as CG, geo
from .rt import nprng
from karta.raster import RegularGrid, SimpleBand, CompressedBand


class Model(object):
    def __init__(self, values, nodata):
        self.v = np.array(values)
        self.nodata = nodata

    def copy(self):
        return Model(self.v.copy(), self.nodata)

    @property
    def size(self):
        return self.v.shape[:2]

    @property
    def nbands(self):
        return self.v.shape[2]

    def isdata(self):
        if self.nodata != self.nodata:
            return ~np.isnan(self.v)
        return self.v != self.nodata


def gen_grid(r, big=None):
    s = geo.grid(r, dtypes=("f8", "f8", "f4", "i2", "i4", "u1", "u2", "i8"), maxn=11)
    if big is None and r.random() < 0.06:
        big = True
    if big:
        # more than one chunk of the default size
        s["ny"], s["nx"], s["nb"] = r.choice([[260, 7, 1], [5, 300, 2], [270, 262, 1], [513, 3, 1], [256, 256, 1], [257, 2, 2]])
        s["bc"] = r.choice(["default", "compressed", "simple"])
    s["how"] = r.choice(["values", "values", "bands", "init"])
    s["iv"] = r.randint(0, 9)
    if s["how"] == "init" and s["bc"] == "default":
        s["bc"] = "compressed"
    return s


def build(s):
    """(grid, model); `how`: from an array, from bands, or from bands holding
    only their initial value"""
    if s.get("how", "values") == "values":
        src = geo.grid_values(s)
        g = geo.build_grid(s, values=src)
        m = Model(geo.grid_values(s), g.nodata)
        src[...] = 77           # the grid must not depend on the caller's array
        return g, m
    bc = geo.bandclass(s) or CompressedBand
    dt = np.dtype(s["dt"]).type
    bands = []
    for k in range(s["nb"]):
        bands.append(bc((s["ny"], s["nx"]), dt, initval=dt(s["iv"] + k)))
    if s["how"] == "bands":
        v = geo.grid_values(s)
        for k, b in enumerate(bands):
            b.setblock(0, 0, v[:, :, k])
    else:
        v = np.empty((s["ny"], s["nx"], s["nb"]), dtype=dt)
        for k in range(s["nb"]):
            v[:, :, k] = s["iv"] + k
    g = RegularGrid(tuple(s["t"]), bands=bands, crs=geo.CRS[s["crs"]], nodata_value=s.get("nodata"))
    return g, Model(v, g.nodata)


def values(seed, shape, dt):
    g = nprng(seed)
    dt = np.dtype(dt)
    if dt.kind == "f":
        return np.round(g.standard_normal(shape) * 100, 3).astype(dt)
    return g.randint(0, 120, size=shape).astype(dt)


FN = {"inc": lambda v: v + v.dtype.type(1), "dbl": lambda v: v + v, "zero": lambda v: v * v.dtype.type(0),
      "rev": lambda v: v[::-1], "inplace": lambda v: np.add(v, v.dtype.type(3), out=v)}


def key_region(k, m):
    """indices of a step-1 key: (rows, columns, bands) as slices"""
    def sl(x, n):
        return slice(x % n, x % n + 1) if isinstance(x, int) else slice(*x.indices(n))
    key = CG.key(k, m)
    if isinstance(key, slice):
        key = (key, slice(None), slice(None))
    if len(key) == 2:
        key = key + (slice(None),)
    return tuple(sl(x, n) for x, n in zip(key, m.v.shape))


def gen_update(r):
    c = r.random()
    if c < 0.4:
        return ["set", CG.gen_key(r, step=False), r.choice(["scalar", "scalar", "full", "plane", "row", "pyint", "cell"]), r.randint(0, 10 ** 6)]
    if c < 0.6:
        return ["mask", r.randint(0, 10 ** 6), r.choice([0.0, 0.1, 0.5, 1.0]), r.choice([2, 3]), r.choice(["scalar", "each", "table"]), r.randint(0, 10 ** 6)]
    if c < 0.72:
        return ["apply", r.choice(sorted(FN))]
    if c < 0.82:
        return ["nodata", r.randint(0, 60)]
    if c < 0.9:
        return ["poly", r.randint(0, 10 ** 6)]
    return ["block", CG.gen_axis(r, False, False), CG.gen_axis(r, False, False), round(r.random(), 2), r.randint(0, 10 ** 6)]


def idempotent(u):
    return u[0] != "apply" or u[1] == "zero"


def the_value(u, m):
    ys, xs, bs = key_region(u[1], m)
    shape = (ys.stop - ys.start, xs.stop - xs.start, bs.stop - bs.start)
    dt = m.v.dtype
    if u[2] == "pyint":
        return int(u[3] % 100)
    if u[2] == "scalar":
        return values(u[3], (1,), dt)[0]
    if u[2] == "plane":
        return values(u[3], shape[:2], dt)
    if u[2] == "row" and shape[0] * shape[1] > 1:
        return values(u[3], shape[1], dt)
    if u[2] == "cell" and shape[0] == shape[1] == 1:
        return values(u[3], shape[2], dt)
    return values(u[3], shape, dt)


def the_mask(u, m):
    return CG.mask(m, u[1], u[2], u[3])


def mask_value(u, m, mask):
    dt = m.v.dtype
    if u[4] == "scalar":
        return float(u[5] % 100) if dt.kind == "f" else int(u[5] % 100)
    n = int(mask.sum())
    if u[4] == "table" and mask.ndim == 2:
        return values(u[5], (n, m.nbands), dt)
    return values(u[5], (n,), dt)


def prepare(g, u, m):
    """(function performing the update on the grid, model afterwards)"""
    out = m.copy()
    k = u[0]
    if k == "set":
        key, val = CG.key(u[1], m), the_value(u, m)
        reg = key_region(u[1], m)
        if isinstance(val, np.ndarray) and val.ndim == 2:
            out.v[reg] = val[:, :, None]
        elif isinstance(val, np.ndarray) and val.ndim == 1 and u[2] == "row" and (out.v[reg].shape[0] * out.v[reg].shape[1] > 1):
            out.v[reg] = val[None, :, None]
        else:
            out.v[reg] = val
        passed = val.copy() if isinstance(val, np.ndarray) else val

        def f():
            if u[3] % 3 == 0:
                g.values[key] = passed
            else:
                g[key] = passed
        return f, out
    if k == "mask":
        mask = the_mask(u, m)
        val = mask_value(u, m, mask)
        if mask.ndim == 3:
            out.v[mask] = val
        elif isinstance(val, np.ndarray) and val.ndim == 1:
            out.v[mask] = val[:, None]
        else:
            out.v[mask] = val
        return (lambda: g.__setitem__(mask, val)), out
    if k == "apply":
        d = m.isdata()
        out.v[d] = FN[u[1]](m.v[d])
        return (lambda: g.apply(FN[u[1]], inplace=True)), out
    if k == "nodata":
        val = m.v.dtype.type(u[1])
        if m.v.dtype.kind == "f" and u[1] % 5 == 0:
            val = float("nan")
        elif u[1] % 3 == 0:
            val = int(u[1])
        out.v[~m.isdata()] = val
        out.nodata = val
        return (lambda: g.set_nodata_value(val)), out
    if k == "poly":
        p = CG.poly(g, u[1])
        if m.v.dtype.kind != "f" and m.nodata != m.nodata:
            return None, out
        # the region itself is a pure function and not in question here: take it
        # from a grid without history
        probe = RegularGrid(g.transform, values=np.ones(m.size), crs=g.crs, nodata_value=-1.0, bandclass=SimpleBand)
        keep = probe.mask_by_poly(p)[:, :, 0] == 1
        out.v[~keep] = m.nodata
        return (lambda: g.mask_by_poly(p, inplace=True)), out
    if k == "block":
        ys, xs = (CG.axis(a, n) for a, n in zip(u[1:3], m.size))
        (y0, y1, _), (x0, x1, _) = ys.indices(m.size[0]), xs.indices(m.size[1])
        b = min(int(u[3] * m.nbands), m.nbands - 1)
        val = values(u[4], (y1 - y0, x1 - x0), m.v.dtype)
        out.v[y0:y1, x0:x1, b] = val
        return (lambda: g.bands[b].setblock(y0, x0, val)), out
    raise ValueError(k)


def equal(a, b):
    return (a == b) | ((a != a) & (b != b))


def state(g):
    return np.array(g[:, :, :])


def differs(have, m):
    """None or a description"""
    if have.shape != m.v.shape:
        return "shape %r, expected %r" % (have.shape, m.v.shape)
    if have.dtype != m.v.dtype:
        return "type %s, expected %s" % (have.dtype, m.v.dtype)
    bad = ~equal(have, m.v)
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        return "cell %r is %r, expected %r (%d cells differ)" % (i, have[i], m.v[i], int(bad.sum()))
    return None


def between(have, old, new):
    """None or a description of a cell that is neither old nor new"""
    if have.shape != old.v.shape or have.dtype != old.v.dtype:
        return "shape or type changed to %r %s" % (have.shape, have.dtype)
    bad = ~(equal(have, old.v) | equal(have, new.v))
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        return "cell %r is %r, was %r, was to be %r (%d such cells)" % (i, have[i], old.v[i], new.v[i], int(bad.sum()))
    return None


def same_nodata(a, b):
    return a == b or (a != a and b != b)
