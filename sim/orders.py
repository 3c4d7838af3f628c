"""Seam for the iteration order of sets.

The language does not say in which order a set iterates; interpreters differ,
and CPython draws a new order per process. Here karta's own sets (displays,
comprehensions, set()/frozenset() calls, results of set operators) are objects
that iterate in an order the scenario's seed decides. An unmodified set keeps
its order, as real sets do. The modules are rewritten while they are imported;
nothing on disk changes.
"""
import ast
import importlib.abc
import importlib.machinery
import random
import sys


class Order(object):
    seed = None
    drawn = 0
    rng = random.Random(0)

    @classmethod
    def use(cls, seed):
        cls.seed, cls.drawn = seed, 0
        cls.rng = random.Random(seed)


def _key(x):
    if isinstance(x, (str, bytes, int, float, complex, bool, type(None))):
        return repr(x)
    if isinstance(x, (tuple, frozenset)):
        return "(" + ",".join(sorted(_key(i) for i in x) if isinstance(x, frozenset) else [_key(i) for i in x]) + ")"
    return type(x).__name__


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._base)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._base)


def _make(base, name):
    ns = {"_base": base, "__slots__": ("_salt",)}

    def __iter__(self):
        items = list(base.__iter__(self))
        if Order.seed is None or len(items) < 2:
            return iter(items)
        try:
            salt = self._salt
        except AttributeError:
            salt = self._salt = Order.rng.getrandbits(32)
            Order.drawn += 1
        items.sort(key=_key)
        random.Random("%d/%r" % (salt, len(items))).shuffle(items)
        return iter(items)
    ns["__iter__"] = __iter__

    def pop(self):
        for x in self:
            base.discard(self, x)
            return x
        raise KeyError("pop from an empty set")
    if base is set:
        ns["pop"] = pop

    def wrapped(m):
        f = getattr(base, m)

        def g(self, *a):
            r = f(self, *a)
            return wrap(r)
        g.__name__ = m
        return g
    for m in ("union", "intersection", "difference", "symmetric_difference", "copy",
              "__and__", "__or__", "__sub__", "__xor__", "__rand__", "__ror__", "__rsub__", "__rxor__"):
        ns[m] = wrapped(m)
    ns["__hash__"] = base.__hash__
    ns["__repr__"] = lambda self: "{" + ", ".join(map(repr, self)) + "}"
    ns["__reduce__"] = lambda self: (base, (list(self),))
    return _Meta(name, (base,), ns)


SimSet = _make(set, "set")
SimFrozenSet = _make(frozenset, "frozenset")


def wrap(x):
    t = type(x)
    if t is set:
        return SimSet(x)
    if t is frozenset:
        return SimFrozenSet(x)
    return x


class _Rewrite(ast.NodeTransformer):
    def _call(self, fn, arg, node):
        return ast.copy_location(ast.Call(func=ast.copy_location(ast.Name(id=fn, ctx=ast.Load()), node), args=[arg], keywords=[]), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call("_sim_wrap", node, node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._call("_sim_wrap", node, node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)):
            return self._call("_sim_wrap", node, node)
        return node

    def visit_Name(self, node):
        if isinstance(node.ctx, ast.Load) and node.id in ("set", "frozenset"):
            return ast.copy_location(ast.Name(id="_sim_" + node.id, ctx=ast.Load()), node)
        return node


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = ast.fix_missing_locations(_Rewrite().visit(ast.parse(self.get_data(path), path)))
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__.update(_sim_wrap=wrap, _sim_set=SimSet, _sim_frozenset=SimFrozenSet)
        importlib.machinery.SourceFileLoader.exec_module(self, module)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != "karta" and not fullname.startswith("karta."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path, target)
        if spec is not None and type(spec.loader) is importlib.machinery.SourceFileLoader:
            spec.loader = _Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    if any(m == "karta" or m.startswith("karta.") for m in sys.modules):
        raise RuntimeError("karta imported before the seam")
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())
