"""Executes the project's own source in a namespace whose numpy, struct,
pathlib, ... are the symbolic stand-ins; regenerated from /repo on every run."""
import ast
import builtins
import importlib
import os
import sys
import types

import numpy as np

from . import sym, symio, symnp
from .sym import Unsupported

class SymList(list):
    """List display of the project's source: elements selected by a symbolic
    index become a conditional expression instead of one path per index."""
    __slots__ = ()

    def _sym(self, i):
        i = i.v if isinstance(i, symnp.NpScalar) else i
        return i if isinstance(i, sym.SymInt) else None

    def _at(self, i):
        n = len(self)
        if i.hi >= n or i.lo < -n:
            if not ((i < n) & (i >= -n)):
                raise IndexError("list index out of range")
        return [(j, (i == j) | (i == j - n) if i.lo < 0 else i == j) for j in range(n)
                if i.lo <= j <= i.hi or i.lo <= j - n <= i.hi]

    def __getitem__(self, i):
        s = self._sym(i)
        if s is None or not all(sym.is_int(x) for x in self):
            r = list.__getitem__(self, i)
            return SymList(r) if isinstance(i, slice) else r
        cases = self._at(s)
        r = list.__getitem__(self, cases[-1][0])
        for j, c in reversed(cases[:-1]):
            r = sym.ite(c, list.__getitem__(self, j), r)
        return r

    def __setitem__(self, i, v):
        s = self._sym(i)
        if s is None or not sym.is_int(v) or not all(sym.is_int(x) for x in self):
            return list.__setitem__(self, i, v)
        for j, c in self._at(s):
            list.__setitem__(self, j, sym.ite(c, v, list.__getitem__(self, j)))

    def __add__(self, o): return SymList(list.__add__(self, o))
    def __mul__(self, n): return SymList(list.__mul__(self, n))
    __rmul__ = __mul__
    def copy(self): return SymList(self)


class SymDict(dict):
    """Dictionary display with integer keys: lookups by a symbolic key."""
    __slots__ = ()

    def _cases(self, k):
        k = k.v if isinstance(k, symnp.NpScalar) else k
        if not isinstance(k, sym.SymInt):
            return None
        return [(j, k == j) for j in dict.keys(self) if sym.is_int(j)]

    def get(self, k, default=None):
        cs = self._cases(k)
        if cs is None:
            return dict.get(self, k, default)
        if sym.is_int(default) and all(sym.is_int(dict.__getitem__(self, j)) for j, _ in cs):
            r = default
            for j, c in reversed(cs):
                r = sym.ite(c, dict.__getitem__(self, j), r)
            return r
        for j, c in cs:
            if c:
                return dict.__getitem__(self, j)
        return default

    def __contains__(self, k):
        cs = self._cases(k)
        if cs is None:
            return dict.__contains__(self, k)
        r = False
        for _, c in cs:
            r = c if r is False else sym.bor(r, c)
        return bool(r)

    def __getitem__(self, k):
        cs = self._cases(k)
        if cs is None:
            return dict.__getitem__(self, k)
        if not self.__contains__(k):
            raise KeyError(k)
        vals = [dict.__getitem__(self, j) for j, _ in cs]
        if all(sym.is_int(v) for v in vals):
            r = vals[-1]
            for (j, c), v in reversed(list(zip(cs, vals))[:-1]):
                r = sym.ite(c, v, r)
            return r
        for (j, c), v in zip(cs, vals):
            if c:
                return v
        raise KeyError(k)

    def __setitem__(self, k, v):
        cs = self._cases(k)
        if cs is None:
            return dict.__setitem__(self, k, v)
        if not self.__contains__(k):
            return dict.__setitem__(self, engine_concretize(k), v)
        for j, c in cs:
            dict.__setitem__(self, j, sym.ite(c, v, dict.__getitem__(self, j)))


def engine_concretize(k):
    return sym.engine().concretize(k.v if isinstance(k, symnp.NpScalar) else k)


class BytesConstant:
    """A bytes literal whose join accepts symbolic bytes."""

    def __init__(self, b):
        self.b = b

    def join(self, parts):
        out = []
        for i, x in enumerate(parts):
            if not isinstance(x, (bytes, bytearray, symio.SymBytes)):
                raise TypeError(f"sequence item {i}: expected a bytes-like object, {type(x).__name__} found")
            out += (list(self.b) if i else []) + list(x)
        return symio.mkbytes(out)


class _Displays(ast.NodeTransformer):
    """Wraps list and dictionary displays into their symbolic counterparts."""

    def visit_List(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        return self._wrap("__symlist__", node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        return self._wrap("__symdict__", node)

    @staticmethod
    def _wrap(f, node):
        return ast.copy_location(ast.Call(func=ast.copy_location(ast.Name(id=f, ctx=ast.Load()), node),
                                          args=[node], keywords=[]), node)

    def visit_Call(self, node):
        # b"".join(...) of symbolic bytes
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == "join" and isinstance(f.value, ast.Constant) and isinstance(f.value.value, bytes):
            f.value = self._wrap("__symbytes__", f.value)
        return node

    def visit_AnnAssign(self, node):
        node.value = self.visit(node.value) if node.value else None
        return node

    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [d and self.visit(d) for d in node.kw_defaults]
        return node

    def visit_Subscript(self, node):
        # keep typing expressions such as Callable[[int], int]
        if isinstance(node.value, (ast.Name, ast.Attribute)) and isinstance(node.ctx, ast.Load) and \
                isinstance(node.slice, (ast.Tuple, ast.List)) :
            return node
        self.generic_visit(node)
        return node


def compiled(src, f):
    tree = _Displays().visit(ast.parse(src, f))
    return compile(ast.fix_missing_locations(tree), f, "exec")


REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")

if SRC not in sys.path:
    sys.path.insert(0, SRC)

GLOBALS = {
    "int": symio.IntProxy, "float": symio.FloatProxy, "bytes": symio.BytesProxy,
    "bytearray": symio.ByteArrayProxy, "memoryview": symio.MemoryViewProxy,
    "open": symio.vopen, "hex": symio.hex_proxy, "bin": symio.bin_proxy,
    "input": symio.input_proxy, "sorted": symio.sorted_proxy,
    "__symlist__": SymList, "__symdict__": SymDict, "__symbytes__": BytesConstant,
    "min": symio.minmax(False), "max": symio.minmax(True),
}


class TqdmProxy(types.ModuleType):
    def __init__(self):
        super().__init__("tqdm")

        def tqdm(it=None, *a, **k):
            return it
        self.tqdm = tqdm
        self.trange = lambda n, *a, **k: range(n)
        self.auto = self


class Spectrum(np.lib.mixins.NDArrayOperatorsMixin):
    """Exact discrete Fourier transform of a real series, represented by the
    series: products are cyclic convolutions, conjugation is time reversal."""
    __array_priority__ = 1e7

    def __init__(self, x, half):
        self.x, self.half = list(x), half

    def __len__(self): return len(self.x) // 2 + 1 if self.half else len(self.x)

    @property
    def shape(self): return (len(self),)

    @property
    def size(self): return len(self)

    def conj(self): return Spectrum([self.x[-i % len(self.x)] for i in range(len(self.x))], self.half)
    conjugate = conj
    def copy(self): return Spectrum(self.x, self.half)

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        n = uf.__name__
        if method != "__call__" or any(v is not None for v in kw.values()):
            raise Unsupported(f"{n} of a transform")
        if n in ("conjugate", "positive"):
            return self.conj() if n == "conjugate" else self
        if n == "negative":
            return Spectrum([-v for v in self.x], self.half)
        a, b = (tuple(inputs) + (None,))[:2]
        if isinstance(a, Spectrum) and isinstance(b, Spectrum):
            if len(a.x) != len(b.x) or a.half != b.half:
                raise ValueError("operands could not be broadcast together")
            m = len(a.x)
            if n in ("add", "subtract"):
                return Spectrum([u + v if n == "add" else u - v for u, v in zip(a.x, b.x)], a.half)
            if n == "multiply":
                out = []
                for k in range(m):
                    r = 0
                    for i in range(m):
                        r = r + a.x[i] * b.x[(k - i) % m]
                    out.append(r)
                return Spectrum(out, a.half)
        s, c = (a, b) if isinstance(a, Spectrum) else (b, a)
        if n == "multiply" and isinstance(c, (int, float)) or n == "divide" and s is a and isinstance(b, (int, float)):
            return Spectrum([v * c if n == "multiply" else v / c for v in s.x], s.half)
        raise Unsupported(f"{n} of a transform")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"{n} of a transform")


class FftProxy(types.ModuleType):
    """scipy.fft / numpy.fft: exact transforms of symbolic series."""

    def __init__(self, real):
        super().__init__("fft")
        self._real = real

    @staticmethod
    def _forward(half):
        def f(x, n=None, axis=-1, norm=None, **kw):
            if norm not in (None, "backward"):
                raise Unsupported("transform normalisation")
            x = symnp.from_any(x)
            v = list(x.a)
            if n is not None:
                v = (v + [0] * n)[:n]
            return Spectrum([i if x.dtype.kind == "f" else sym.Flt(i, 0) for i in v], half)
        return f

    @staticmethod
    def _back(half):
        def f(x, n=None, axis=-1, norm=None, **kw):
            if norm not in (None, "backward") or x.half != half:
                raise Unsupported("transform normalisation")
            m = 2 * (len(x) - 1) if n is None and half else n
            if m is not None and m != len(x.x):
                raise Unsupported("inverse transform of another length")
            return symnp.SymArray(symnp.objarr([sym.to_flt(v) for v in x.x]), np.dtype(float))
        return f

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        f = getattr(self._real, n)
        special = {"rfft": self._forward(True), "fft": self._forward(False),
                   "irfft": self._back(True), "ifft": self._back(False)}.get(n)
        if not callable(f):
            return f

        def g(*a, **k):
            if special and a and (isinstance(a[0], Spectrum) or symnp.has_sym(a[0])):
                return special(*a, **k)
            return symnp.call_concrete(f, a, k)
        return g


class ScipyProxy(types.ModuleType):
    def __init__(self):
        super().__init__("scipy")
        import scipy.fft
        self.fft = FftProxy(scipy.fft)


class BisectProxy(types.ModuleType):
    """bisect with the textbook algorithm (comparisons fork)."""

    def __init__(self):
        super().__init__("bisect")

        def bisect_left(a, x, lo=0, hi=None):
            hi = len(a) if hi is None else hi
            while lo < hi:
                mid = (lo + hi) // 2
                if a[mid] < x:
                    lo = mid + 1
                else:
                    hi = mid
            return lo

        def bisect_right(a, x, lo=0, hi=None):
            hi = len(a) if hi is None else hi
            while lo < hi:
                mid = (lo + hi) // 2
                if x < a[mid]:
                    hi = mid
                else:
                    lo = mid + 1
            return lo
        self.bisect_left = bisect_left
        self.bisect_right = self.bisect = bisect_right
        self.insort = self.insort_right = lambda a, x: a.insert(bisect_right(a, x), x)
        self.insort_left = lambda a, x: a.insert(bisect_left(a, x), x)


class SymWorld:
    """One set of symbolically executed modules."""

    def __init__(self, stubs=None):
        self.np = symnp.NpProxy()
        self.mods = {}
        self.stubs = {
            "numpy": self.np, "struct": symio.StructProxy(), "pathlib": symio.PathlibProxy(),
            "os": symio.OsProxy(), "os.path": symio.OsPathProxy(), "tqdm": TqdmProxy(),
            "scipy": ScipyProxy(), "bisect": BisectProxy(),
        }
        self.np.overrides["fft"] = FftProxy(np.fft)
        self.stubs["scipy.fft"] = self.stubs["scipy"].fft
        self.stubs.update(stubs or {})

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        parent = name.rpartition(".")[0]
        if parent and parent not in self.mods:
            self.load(parent)               # packages first, as the import system does
            if name in self.mods:
                return self.mods[name]
        path = os.path.join(SRC, *name.split("."))
        if os.path.isdir(path):
            f = os.path.join(path, "__init__.py")
            src = open(f).read() if os.path.exists(f) else ""
            pkg = True
        else:
            f = path + ".py"
            with open(f) as fh:
                src = fh.read()
            pkg = False
        m = types.ModuleType(name)
        m.__file__ = f
        m.__symmod__ = self
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [path]
        m.__dict__.update(GLOBALS)
        self.mods[name] = m
        try:
            exec(compiled(src, f), m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        parent, _, leaf = name.rpartition(".")
        if parent:
            setattr(self.load(parent), leaf, m)
        return m

    def imp(self, name, fromlist, level, g):
        if level:
            base = g.get("__package__", "")
            for _ in range(level - 1):
                base = base.rpartition(".")[0]
            name = f"{base}.{name}" if name else base
        top = name.split(".")[0]
        if top == "fpfind":
            m = self.load(name)
            if fromlist:
                for x in fromlist:
                    if not hasattr(m, x):
                        try:
                            self.load(f"{name}.{x}")
                        except FileNotFoundError:
                            pass
                return m
            parts = name.split(".")
            for i in range(len(parts)):
                self.load(".".join(parts[:i + 1]))
            return self.load(top)
        if name in self.stubs:
            s = self.stubs[name]
            if fromlist or "." not in name:
                return s
            return self.stubs.get(top) or s
        return None


_real_import = builtins.__import__


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if globals is not None:
        w = globals.get("__symmod__")
        if w is not None:
            m = w.imp(name, fromlist, level, globals)
            if m is not None:
                return m
    return _real_import(name, globals, locals, fromlist, level)


builtins.__import__ = _import


def real_module(name):
    m = importlib.import_module(name)
    return m
