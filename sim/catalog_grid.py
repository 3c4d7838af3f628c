"""Read-only uses of a grid through the public API, each described by a JSON
list [name, parameters...]. Positions are fractions of the grid, so that an
operation stays meaningful when the grid is shrunk."""
import numpy as np

from karta.raster import merge, slope, aspect, gradient, divergence, hillshade, normed_potential_vectors
from karta.vector.geometry import Point, Multipoint, Line, Polygon, Multipolygon

from .rt import arg, canon, nprng


def gen_axis(r, allow_int=True, step=True):
    if allow_int and r.random() < 0.35:
        return ["i", r.choice([0.0, 0.999, round(r.random(), 3)]), r.random() < 0.3]
    if r.random() < 0.25:
        return ["s", 0.0, 1.0, 1]
    a, b = sorted([round(r.random(), 3), round(r.random(), 3)])
    return ["s", a, b, r.choice([1, 1, 1, 2, 3, -1, -2]) if step else 1]


def axis(spec, n):
    """an index or a non-empty slice within [0, n)"""
    if spec[0] == "i":
        i = min(int(spec[1] * n), n - 1)
        return i - n if spec[2] else i
    a = min(int(spec[1] * n), n - 1)
    b = max(a + 1, min(int(round(spec[2] * n)), n))
    if a == 0 and b == n and spec[3] in (1, -1):
        return slice(None, None, spec[3])
    if spec[3] > 0:
        return slice(a, b, spec[3])
    return slice(b - 1, a - 1 if a > 0 else None, spec[3])


def gen_key(r, step=True):
    c = r.random()
    if c < 0.08:
        return ["row", gen_axis(r, False, step)]
    if c < 0.5:
        return ["2", gen_axis(r, True, step), gen_axis(r, True, step)]
    return ["3", gen_axis(r, True, step), gen_axis(r, True, step), gen_axis(r, True, False)]


def key(spec, grid):
    ny, nx = grid.size
    if spec[0] == "row":
        return axis(spec[1], ny)
    k = (axis(spec[1], ny), axis(spec[2], nx))
    return k if spec[0] == "2" else k + (axis(spec[3], grid.nbands),)


def mask(grid, seed, density, ndim):
    ny, nx = grid.size
    shape = (ny, nx) if ndim == 2 else (ny, nx, grid.nbands)
    return arg(nprng(seed).random_sample(shape) < density)


def at(grid, fx, fy):
    """coordinates of a fractional position of the grid"""
    t = grid.transform
    ny, nx = grid.size
    i, j = fy * ny, fx * nx
    return t[0] + j * t[2] + i * t[4], t[1] + i * t[3] + j * t[5]


def some_xy(grid, seed, n, lo, hi):
    g = nprng(seed)
    p = [at(grid, lo + (hi - lo) * a, lo + (hi - lo) * b) for a, b in g.random_sample((n, 2))]
    return arg([q[0] for q in p]), arg([q[1] for q in p])


def poly(grid, seed, lo=-0.2, hi=1.2):
    g = nprng(seed)
    n = g.randint(3, 7)
    ang = np.sort(g.random_sample(n)) * 2 * np.pi
    cx, cy, rad = g.uniform(0.2, 0.8), g.uniform(0.2, 0.8), g.uniform(0.3, 0.7)
    pts = [at(grid, cx + rad * np.cos(a), cy + rad * np.sin(a)) for a in ang]
    subs = []
    if g.random_sample() < 0.3:
        subs = [Polygon([at(grid, cx + f * rad * np.cos(a), cy + f * rad * np.sin(a)) for a in (2.1, 0.1, 4.2)], crs=grid.crs)
                for f in (0.3, 0.2)]
    return arg(Polygon([(float(x), float(y)) for x, y in pts], subs=subs, crs=grid.crs))


def q_item(g, k):
    return g[key(k, g)]


def q_values(g, k):
    return g.values[key(k, g)]


def q_mask(g, seed, dens, ndim):
    return g[mask(g, seed, dens, ndim)]


def q_rows(g):
    return [np.array(r) for r in g.values]


def q_sample(g, seed, n, method, lo, hi, how):
    x, y = some_xy(g, seed, n, lo, hi)
    if how == "scalar":
        f = g.sample_nearest if method == "nearest" else g.sample_bilinear
        return f(x[0], y[0])
    if how == "point":
        return g.sample(arg(Point((x[0], y[0]), crs=g.crs)), method=method)
    if how == "multipoint":
        return g.sample(arg(Multipoint(list(zip(x, y)), crs=g.crs)), method=method)
    if how == "array":
        f = g.sample_nearest if method == "nearest" else g.sample_bilinear
        return f(arg(np.array(x)), arg(np.array(y)))
    return g.sample(x, y, method=method)


def q_profile(g, seed, n):
    x, y = some_xy(g, seed, 3, 0.2, 0.8)
    ln = arg(Line(list(zip(x, y)), crs=g.crs))
    return g.profile(ln, resolution=ln.length / float(n), method="nearest")


def q_clip(g, a, b, c, d):
    (x0, y0), (x1, y1) = at(g, min(a, b), min(c, d)), at(g, max(a, b) + 0.3, max(c, d) + 0.3)
    return g.clip(min(x0, x1), max(x0, x1), min(y0, y1), max(y0, y1))


def q_resample(g, fx, fy, method):
    dx, dy = g.resolution
    return g.resample(dx * fx, dy * fy, method=method)


def q_resize(g, a, b):
    x0, y0, x1, y1 = g.bbox()
    w, h = x1 - x0, y1 - y0
    box = [x0 - a * w, y0 - b * h, x1 + b * w, y1 + a * h]
    return g.resize(arg([box, tuple(box), np.array(box)][int(abs(a + b) * 10) % 3]))


def q_chunks(g, a, b, cp, ov):
    ny, nx = g.size
    return list(g.aschunks(size=(max(2, int(a * nx)), max(2, int(b * ny))), overlap=(ov, ov), copy=cp))


def q_coords(g, k):
    ny, nx = g.size
    return g.coordinates()[axis(k[1], ny), axis(k[2], nx)]


def q_indices(g, seed, n):
    x, y = some_xy(g, seed, n, 0.05, 0.95)
    return (g.positions(x, y), g.indices(x, y), g.positions(x[0], y[0]))


def q_misc(g, which, band):
    f = {"slope": slope, "aspect": aspect, "gradient": gradient, "hillshade": hillshade,
         "vectors": normed_potential_vectors}[which]
    return f(g, band=min(int(band * g.nbands), g.nbands - 1))


def q_divergence(g):
    return divergence(g, bands=(0, g.nbands - 1))


def q_apply(g):
    return g.apply(lambda v: v + v.dtype.type(1))


def q_maskpoly(g, seed, multi):
    p = poly(g, seed)
    if multi:
        p = arg([p, poly(g, seed + 1)])
    return g.mask_by_poly(p)


def q_merge(g, dj, di, w):
    t = list(g.transform)
    from karta.raster import RegularGrid
    # a shift by whole cells that survives rounding
    def other(k):
        return RegularGrid([t[0] + k * dj * t[2], t[1] + k * di * t[3]] + t[2:], values=g[:, :, :], crs=g.crs, nodata_value=g.nodata)
    n = 2
    if w is not None and w[0] == "array":
        w = np.array(w[2:], dtype=w[1])
    elif w is not None and w[0] == "n":
        n, w = w[1], None
    if w is not None:
        n = len(w)
    return merge(arg([g] + [other(k) for k in range(1, n)]), weights=arg(w))


# name -> (generator of parameters, function, needs)
Q = {
    "item": (lambda r: [gen_key(r)], q_item),
    "values": (lambda r: [gen_key(r)], q_values),
    "mask": (lambda r: [r.randint(0, 10 ** 6), r.choice([0.1, 0.5, 1.0]), r.choice([2, 3])], q_mask),
    "rows": (lambda r: [], q_rows),
    "max": (lambda r: [], lambda g: g.max()),
    "min": (lambda r: [], lambda g: g.min()),
    "minmax": (lambda r: [], lambda g: g.minmax()),
    "data_mask": (lambda r: [], lambda g: g.data_mask),
    "data_mask_full": (lambda r: [], lambda g: g.data_mask_full),
    "header": (lambda r: [], lambda g: [g.size, g.transform, g.nodata, g.nbands, g.bbox(), g.extent(), g.extent("edge"),
                                        g.origin, g.resolution, g.skew, g.center_llref(), g.values.shape,
                                        np.dtype(g.values.dtype).str]),
    "data_extent": (lambda r: [r.choice(["center", "edge"])], lambda g, ref: g.data_extent(reference=ref)),
    "sample": (lambda r: [r.randint(0, 10 ** 6), r.randint(1, 6), r.choice(["nearest", "bilinear"]),
                          *r.choice([[0.1, 0.9], [0.0, 1.0], [-0.3, 1.3]]),
                          r.choice(["scalar", "point", "multipoint", "list", "array"])], q_sample),
    "profile": (lambda r: [r.randint(0, 10 ** 6), r.randint(2, 6)], q_profile),
    "clip": (lambda r: [round(r.random(), 3) for _ in range(4)], q_clip),
    "resample": (lambda r: [r.choice([0.7, 1.0, 1.9]), r.choice([0.8, 1.0, 2.1]), r.choice(["nearest", "linear"])], q_resample),
    "resize": (lambda r: [r.choice([0.0, 0.3, -0.2]), r.choice([0.0, 0.3, -0.2])], q_resize),
    "chunks": (lambda r: [round(r.random(), 2), round(r.random(), 2), r.random() < 0.5, r.choice([0, 0, 1])], q_chunks),
    "coords": (lambda r: [gen_key(r)], lambda g, k: q_coords(g, k if k[0] != "row" else ["2", k[1], k[1]])),
    "center_coords": (lambda r: [], lambda g: g.center_coords()),
    "vertex_coords": (lambda r: [], lambda g: g.vertex_coords()),
    "indices": (lambda r: [r.randint(0, 10 ** 6), r.randint(1, 5)], q_indices),
    "misc": (lambda r: [r.choice(["slope", "aspect", "gradient", "hillshade", "vectors"]), round(r.random(), 2)], q_misc),
    "divergence": (lambda r: [], q_divergence),
    "apply": (lambda r: [], q_apply),
    "copy": (lambda r: [], lambda g: g.copy()),
    "add": (lambda r: [], lambda g: g + g),
    "sub": (lambda r: [], lambda g: g - g),
    "maskpoly": (lambda r: [r.randint(0, 10 ** 6), r.random() < 0.3], q_maskpoly),
    "merge": (lambda r: [r.randint(-2, 2), r.randint(-2, 2), r.choice([None, None, [1, 3], ["array", "f4", 2.0, 3.0], ["array", "f8", 1.0, 0.5], ["array", "i8", 1, 3],
                                                                      ["n", 1], ["n", 3], [2], [1, 2, 0.5]])], q_merge),
}
NAMES = sorted(Q)


def gen(r, names=None):
    n = r.choice(names or NAMES)
    return [n] + Q[n][0](r)


def ask(g, op):
    """canonical answer; an exception is an answer too"""
    with np.errstate(all="ignore"):
        try:
            return ["ok", canon(Q[op[0]][1](g, *op[1:]))]
        except Exception as e:
            return ["raised", type(e).__name__]
