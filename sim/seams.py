"""Seams between karta and the libraries below it, installed before karta is
imported: calls that can fail (compression, allocation) and memory whose
content nobody chose (numpy's uninitialised arrays). Off unless armed."""
import sys

import numpy as np

_real = {}


class Plan(object):
    """fails the n-th call of the named functions with exc"""

    def __init__(self):
        self.names = ()
        self.n = -1
        self.exc = None
        self.calls = 0
        self.fired = None
        self.fill = None
        self.uninit = 0

    def arm(self, names, n, exc):
        self.names, self.n, self.exc, self.calls, self.fired = set(names), n, exc, 0, None

    def disarm(self):
        self.names = ()
        f, self.fired = self.fired, None
        return f

    def call(self, name):
        if name in self.names:
            i = self.calls
            self.calls += 1
            if i == self.n:
                self.fired = name
                raise self.exc("injected: %s" % name)


PLAN = Plan()


def _fill(a, seedpos):
    f = PLAN.fill
    if f is None or a.dtype == object or a.dtype.hasobject:
        return
    PLAN.uninit += 1
    if a.size and a.flags.c_contiguous:
        a.reshape(-1).view(np.uint8)[...] = f
    elif a.size:
        try:
            a[...] = np.frombuffer(bytes([f]) * a.dtype.itemsize, dtype=a.dtype)[0]
        except Exception:
            pass


def _wrap_alloc(name, fills):
    f = getattr(np, name)
    _real["np." + name] = f

    def g(*a, **k):
        PLAN.call("alloc")
        r = f(*a, **k)
        if fills and PLAN.fill is not None:
            _fill(r, name)
        return r
    g.__name__ = name
    setattr(np, name, g)


def _wrap_codec(mod, name):
    f = getattr(mod, name)
    _real["blosc." + name] = f

    def g(*a, **k):
        PLAN.call(name)
        return f(*a, **k)
    g.__name__ = name
    setattr(mod, name, g)


_done = False


def install():
    global _done
    if _done:
        return
    if any(m == "karta" or m.startswith("karta.") for m in sys.modules):
        raise RuntimeError("karta imported before the seams")
    _done = True
    import blosc
    for n in ("compress", "decompress"):
        _wrap_codec(blosc, n)
    for n in ("empty", "empty_like"):
        _wrap_alloc(n, True)
    for n in ("full", "zeros", "ones", "zeros_like", "full_like", "where", "dstack", "vstack", "broadcast_to"):
        _wrap_alloc(n, False)
