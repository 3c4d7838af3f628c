"""Runtime shared by every simulated world: seeds, violations, canonical values.

Nothing in here knows about karta's internals; `canon` turns whatever karta's
public API returns into plain comparable data.
"""
import gc
import hashlib
import random

import numpy as np


class Violation(Exception):
    """A property was observed not to hold."""

    def __init__(self, kind, msg):
        Exception.__init__(self, "%s: %s" % (kind, msg))
        self.kind = kind
        self.msg = msg


def rng(*key):
    """The only source of randomness: a generator keyed by seed material."""
    h = hashlib.sha256(repr(key).encode()).digest()
    return random.Random(int.from_bytes(h, "big"))


def nprng(seed):
    return np.random.RandomState(int(seed) % (2 ** 32))


def digest(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:16]


class Ctx(object):
    """What one simulated run may use and what it reports."""

    def __init__(self, tmp, disk=None):
        self.tmp = tmp
        self.disk = disk
        self.faults = {}
        self.counts = {}
        self.cover = set()
        self.steps = 0
        self.known = {}

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def count(self, kind, n=1):
        self.counts[kind] = self.counts.get(kind, 0) + n

    def mark(self, *key):
        """one element of the stated coverage measure"""
        self.cover.add(digest(key))

    def finding(self, name, what):
        """a violation that matches an entry of the known-findings file"""
        self.known[name] = what


def attempt(fn, *a, **k):
    """('ok', value) or ('exc', exception). Control-flow of the simulator
    itself (Violation and the scheduler's stop signals) passes through."""
    try:
        return "ok", fn(*a, **k)
    except Violation:
        raise
    except (Exception, KeyboardInterrupt) as e:
        return "exc", e


def must(kind, what, fn, *a, **k):
    """Call something the property says has to succeed."""
    s, v = attempt(fn, *a, **k)
    if s == "exc":
        raise Violation(kind, "%s raised %s: %s" % (what, type(v).__name__, str(v)[:200]))
    return v


# operands made on the spot, with what they were: [object, canonical value]
WATCH = None


def arg(x):
    """x, an argument of a call that must not change it"""
    if WATCH is not None:
        WATCH.append([x, canon(x)])
    return x


def collect():
    # PyPy runs finalizers in steps; a few rounds reach the fixed point
    for _ in range(3):
        gc.collect()


def cfloat(x):
    x = float(x)
    return "nan" if x != x else x


def canon(x, depth=0):
    """Plain-data form of a value, equal iff observably equal (bit for bit,
    NaN equal to NaN)."""
    if depth > 12:
        return "<deep>"
    d = depth + 1
    if x is None or isinstance(x, (str, bytes, bool)):
        return x
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ["nd", list(x.shape), "O", [canon(i, d) for i in x.ravel().tolist()]]
        if x.dtype.kind == "c":
            flat = [[cfloat(v.real), cfloat(v.imag)] for v in x.ravel().tolist()]
        elif x.dtype.kind == "f":
            flat = [cfloat(v) for v in x.ravel().tolist()]
        else:
            flat = x.ravel().tolist()
        return ["nd", list(x.shape), x.dtype.str, flat]
    if isinstance(x, np.generic):
        return canon(x.item(), d)
    if isinstance(x, int):
        return x
    if isinstance(x, float):
        return cfloat(x)
    if isinstance(x, complex):
        return ["c", cfloat(x.real), cfloat(x.imag)]
    if isinstance(x, dict):
        return ["dict", sorted(([str(k), canon(v, d)] for k, v in x.items()), key=repr)]
    if isinstance(x, (set, frozenset)):
        return ["set", sorted((canon(v, d) for v in x), key=repr)]
    if isinstance(x, (list, tuple)):
        return ["list", [canon(v, d) for v in x]]
    if isinstance(x, BaseException):
        return ["exc", type(x).__name__]
    t = type(x)
    geo = getattr(x, "_geotype", None)
    if geo is not None:
        return canon_geom(x, d)
    if hasattr(x, "getfield") and hasattr(x, "fields"):
        return canon_table(x, d)
    if hasattr(x, "nbands") and hasattr(x, "transform"):
        return canon_grid(x, d)
    if hasattr(x, "get_proj4"):
        return ["crs", x.get_proj4()]
    if hasattr(x, "__next__"):
        return ["iter", [canon(v, d) for v in x]]
    if hasattr(x, "asarray"):
        return canon(x.asarray(), d)
    if hasattr(x, "_fields") and hasattr(x, "_asdict"):
        return canon(dict(x._asdict()), d)
    if hasattr(x, "__iter__"):
        return ["iter", [canon(v, d) for v in x]]
    return ["obj", t.__name__]


def canon_table(t, d=0):
    """rows as field -> value mappings: independent of the column order"""
    names = sorted(t.fields)
    cols = {n: t.getfield(n) for n in names}
    return ["table", len(t), [[n, canon(list(cols[n]), d)] for n in names]]


def canon_geom(g, d=0):
    out = ["geom", type(g).__name__, canon(g.properties, d), canon(g.crs, d)]
    if hasattr(g, "vertex"):
        out.append(canon(tuple(g.vertex()), d))
    else:
        out.append(canon(g.vertices(), d))
    if hasattr(g, "subs"):
        out.append([canon(s, d) for s in g.subs])
    if hasattr(g, "data"):
        out.append(canon_table(g.data, d))
    return out


def canon_grid(g, d=0):
    return ["grid", canon(tuple(g.transform), d), canon(g.nodata, d), canon(g.crs, d),
            canon(np.array(g[:, :, :]), d)]


def same(a, b):
    return a == b


def first_diff(a, b, path=""):
    """human-readable location of the first difference of two canonical values"""
    if type(a) != type(b):
        return "%s: %r != %r" % (path, short(a), short(b))
    if isinstance(a, list):
        if len(a) != len(b):
            return "%s: lengths %d != %d (%s / %s)" % (path, len(a), len(b), short(a), short(b))
        for i, (u, v) in enumerate(zip(a, b)):
            if u != v:
                return first_diff(u, v, "%s[%d]" % (path, i))
        return "equal"
    return "%s: %s != %s" % (path, short(a), short(b))


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."
