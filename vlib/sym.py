"""Symbolic values with exact Python / IEEE semantics, and the path engine.

SymInt   exact Python integer, a signed bit-vector wide enough for its bounds
SymBool  boolean; truth-testing it forks the path
Flt      m * 2**e with integer m (possibly symbolic); rounding to p bits explicit
Real     z3 real (only for harnesses that declare "floats as reals")
"""
import math
import sys
import time
from fractions import Fraction

from .z3load import z3

builtins_int = int


class Unsupported(BaseException):
    """The engine cannot follow the program here (never the program's fault)."""


class PathAbort(BaseException):
    """Path is infeasible or cut by a bound."""


class Hang(BaseException):
    pass


# --------------------------------------------------------------------- engine
class MulAbstraction:
    def __init__(self):
        self.cache = {}
        self.fs = {}
        self.count = 0

    def product(self, a, b):
        w = a.size()
        f = self.fs.get(w)
        if f is None:
            f = self.fs[w] = z3.Function(f"product{w}", z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))
        self.count += 1
        if a.eq(b):
            return f(a, b)
        if z3.is_bv_value(a):
            return f(a, b)
        if z3.is_bv_value(b):
            return f(b, a)
        c = z3.ULE(a, b)
        return f(z3.If(c, a, b), z3.If(c, b, a))

    def rewrite(self, root):
        cache = self.cache
        stack = [root]
        while stack:
            e = stack[-1]
            i = e.get_id()
            if i in cache:
                stack.pop()
                continue
            ch = e.children()
            todo = [c for c in ch if c.get_id() not in cache]
            if todo:
                stack += todo
                continue
            stack.pop()
            new = [cache[c.get_id()][1] for c in ch]
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_BMUL:
                # products by a power of two (or its negation) stay
                consts = [c for c in ch if z3.is_bv_value(c)]
                k = consts[0].as_signed_long() if consts else 0
                if len(ch) == 2 and consts and k and abs(k) & (abs(k) - 1) == 0:
                    r = new[0] * new[1]
                else:
                    r = new[0]
                    for x in new[1:]:
                        r = self.product(r, x)
            elif all(a.eq(b) for a, b in zip(ch, new)):
                r = e
            else:
                args = (z3.Ast * len(new))(*[x.as_ast() for x in new])
                r = z3.z3._to_expr_ref(z3.Z3_update_term(e.ctx_ref(), e.as_ast(), len(new), args), e.ctx)
            cache[i] = (e, r)
        return cache[root.get_id()][1]


class Engine:
    def __init__(self, max_paths=4000, solver_timeout_ms=60000, deadline=None):
        self.max_paths = max_paths
        self.timeout = solver_timeout_ms
        self.deadline = deadline
        self.stats = dict(paths=0, branches=0, queries=0, solver_s=0.0, unknown=0,
                          forks=0)
        self.conc_table = {}
        self.reset_path([])

    rounding = False

    def reset_path(self, prefix):
        self.rounding = False
        self.prefix = prefix
        self.decisions = []
        self.pending = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout)
        self.inputs = {}
        self.real_range = {}
        self.tokens = []
        self.token_ids = {}
        self.notes = []
        self.model = None
        self.ncon = 0
        self.path_state = {}

    # -- solver access
    def check(self, *assumptions):
        t = time.time()
        self.stats["queries"] += 1
        if self.deadline and t > self.deadline:
            raise Unsupported("time budget exhausted")
        r = self.solver.check(*assumptions)
        self.stats["solver_s"] += time.time() - t
        if r == z3.unknown:
            self.stats["unknown"] += 1
        elif r == z3.sat:
            self.model = self.solver.model()
        return r

    def abstract_open(self, conds, timeout_ms=20000):
        """The conditions of conds (indices) that stay satisfiable, or undecided,
        when every bit-vector product is replaced by a commutative uninterpreted
        function (so leaving one out is sound), and a possibly spurious model of
        one of them. (None, None) if there is no product to abstract."""
        t = time.time()
        ab = MulAbstraction()
        base = [ab.rewrite(c) for c in self.solver.assertions()]
        terms = [ab.rewrite(c) for c in conds]
        if not ab.count:
            return None, None
        left, model = [], None
        for i, c in enumerate(terms):
            if self.deadline and time.time() > self.deadline:
                left.append(i)
                continue
            s = z3.Solver()
            s.set("timeout", timeout_ms)
            s.add(*base, c)
            self.stats["queries"] += 1
            r = s.check()
            if r != z3.unsat:
                left.append(i)
                if r == z3.sat and model is None:
                    model = s.model()
        self.stats["solver_s"] += time.time() - t
        return left, model

    def assume(self, cond):
        cond = as_z3bool(cond)
        self.solver.add(cond)
        self.model = None

    def assume_checked(self, cond):
        self.assume(cond)
        if self.check() == z3.unsat:
            raise PathAbort("assumption infeasible")

    def _known(self, c):
        """Truth of c in the cached model of the path condition (or None)."""
        if self.model is None:
            return None
        v = self.model.eval(c, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def branch(self, cond):
        """Decides a symbolic condition, forking when both sides are feasible."""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.stats["branches"] += 1
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            self.solver.add(c if d else z3.Not(c))
            self.model = None
            return d
        known = self._known(c)
        m0 = self.model
        if known is True:
            mt, rt, rf = m0, z3.sat, self.check(z3.Not(c))
        elif known is False:
            rt, rf = self.check(c), z3.sat
            mt = self.model if rt == z3.sat else None
        else:
            rt = self.check(c)
            mt = self.model if rt == z3.sat else None
            rf = self.check(z3.Not(c)) if rt != z3.unsat else z3.sat
        if rt == z3.unsat:
            if known is None and self.check() == z3.unsat:
                raise PathAbort("infeasible")
            self.decisions.append(False)
            self.solver.add(z3.Not(c))
            if known is False:
                self.model = m0
            return False
        if rf == z3.unsat:
            self.decisions.append(True)
            self.solver.add(c)
            self.model = mt
            return True
        if rt == z3.unknown or rf == z3.unknown:
            raise Unsupported("solver unknown at a branch")
        self.stats["forks"] += 1
        self.pending.append(self.decisions + [False])
        self.decisions.append(True)
        self.solver.add(c)
        self.model = mt
        return True

    def implied(self, cond):
        c = z3.simplify(as_z3bool(cond))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.check(z3.Not(c)) == z3.unsat

    def choose(self, n, label="choice"):
        """Nondeterministic choice of an integer in range(n) by forking."""
        return self.concretize(self.new_int(f"{label}", 0, n - 1))

    def concretize(self, x, limit=300):
        """Forks over the feasible values of x; returns a concrete int."""
        if isinstance(x, builtins_int):
            return builtins_int(x)
        for _ in range(limit):
            v = self._try_value(lambda m: eval_int(m, x))
            if self.branch(as_z3bool(x == v)):
                return v
        raise Unsupported("too many values to concretize")

    def _try_value(self, ev):
        """Value to try next: recorded, so that a re-execution along the same
        decisions tries the same one."""
        self.ncon += 1
        key = (tuple(self.decisions), self.ncon)
        if key not in self.conc_table:
            if self.model is None and self.check() != z3.sat:
                raise PathAbort("infeasible")
            self.conc_table[key] = ev(self.model)
        return self.conc_table[key]

    # -- inputs
    def new_bits(self, name, bits):
        return self.new_int(name, 0, (1 << bits) - 1)

    def new_int(self, name, lo, hi):
        base = name
        k = 1
        while name in self.inputs:
            k += 1
            name = f"{base}#{k}"
        if lo == hi:
            self.inputs[name] = lo
            return lo
        if lo >= 0:
            n = hi.bit_length()
            v = z3.ZeroExt(1, z3.BitVec(name, n))
        else:
            n = width_for(lo, hi)
            v = z3.BitVec(name, n)
        if lo > 0 or (lo == 0 and hi != (1 << n) - 1) or \
                (lo < 0 and (lo, hi) != (-(1 << (n - 1)), (1 << (n - 1)) - 1)):
            self.solver.add(v >= lo, v <= hi)
            self.model = None
        s = SymInt(v, lo, hi)
        self.inputs[name] = s
        return s

    def new_integer(self, name, lo, hi):
        v = z3.Int(name)
        self.model = None
        self.solver.add(v >= lo, v <= hi)
        r = RealInt(v)
        self.inputs[name] = r
        return r

    def new_bool(self, name):
        v = SymBool(z3.Bool(name))
        self.inputs[name] = v
        return v

    def new_real(self, name, lo=None, hi=None):
        v = z3.Real(name)
        self.model = None
        if lo is not None:
            self.solver.add(v >= q(lo))
        if hi is not None:
            self.solver.add(v <= q(hi))
        r = Real(v)
        self.inputs[name] = r
        self.real_range[name] = (lo, hi)
        return r

    # -- text tokens: a private-use character stands for one symbolic character
    TOK0 = 0xF0000

    def token(self, kind, value, spec=""):
        if isinstance(value, SymInt):
            k = value.e.get_id()
        elif isinstance(value, Flt) and isinstance(value.m, SymInt):
            k = (value.m.e.get_id(), value.e)
        else:
            k = ("id", id(value))
        key = (kind, k, spec)
        if key in self.token_ids:
            return self.token_ids[key]
        self.tokens.append((kind, value, spec))
        c = chr(self.TOK0 + len(self.tokens) - 1)
        self.token_ids[key] = c
        return c

    def token_of(self, ch):
        i = ord(ch) - self.TOK0
        if 0 <= i < len(self.tokens):
            return self.tokens[i]
        return None


ENGINE = None


def engine():
    return ENGINE


def set_engine(e):
    global ENGINE
    ENGINE = e


def q(x):
    """Exact z3 rational of a Python number."""
    f = Fraction(x)
    return z3.RealVal(f"{f.numerator}/{f.denominator}") if f.denominator != 1 \
        else z3.RealVal(f.numerator)


def width_for(lo, hi):
    w = 1
    n = max(hi, -lo - 1 if lo < 0 else 0)
    return builtins_int(n).bit_length() + 1 if n > 0 else 1


def is_sym(x):
    return isinstance(x, (SymInt, SymBool, Flt, Real))


def is_int(x):
    return isinstance(x, (builtins_int, SymInt)) or isinstance(x, SymBool)


def as_z3bool(c):
    if isinstance(c, SymBool):
        return c.e
    if isinstance(c, bool):
        return z3.BoolVal(c)
    if z3.is_expr(c):
        return c
    if isinstance(c, builtins_int):
        return z3.BoolVal(c != 0)
    if isinstance(c, SymInt):
        return as_z3bool(c != 0)
    if hasattr(c, "__symbool__"):
        return as_z3bool(c.__symbool__())
    if hasattr(c, "dtype"):
        return z3.BoolVal(bool(c))
    raise Unsupported(f"not a condition: {type(c)}")


def mkbool(e):
    e = z3.simplify(e) if not (z3.is_true(e) or z3.is_false(e)) else e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def fit(x, w):
    """z3 term of width w congruent to the integer x modulo 2**w."""
    if isinstance(x, builtins_int):
        return z3.BitVecVal(x, w)
    cw = x.e.size()
    if cw == w:
        return x.e
    if cw < w:
        return z3.SignExt(w - cw, x.e)
    return z3.Extract(w - 1, 0, x.e)


def mkint(e, lo, hi):
    """Integer with bounds from a term (of any sufficient signed width)."""
    if lo == hi:
        return lo
    w = width_for(lo, hi)
    cw = e.size()
    if cw > w:
        e = z3.Extract(w - 1, 0, e)
    elif cw < w:
        e = z3.SignExt(w - cw, e)
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_signed_long()
    return SymInt(e, lo, hi)


def bounds(x):
    if isinstance(x, SymInt):
        return x.lo, x.hi
    return x, x


def norm_int(x):
    """int | SymInt from anything integral, or None."""
    if isinstance(x, SymInt):
        return x
    if isinstance(x, bool):
        return builtins_int(x)
    if isinstance(x, builtins_int):
        return x
    if isinstance(x, SymBool):
        return x.as_int()
    return None


def ite(c, a, b):
    """Value-level if-then-else over numbers."""
    if isinstance(c, SymBool):
        c = c.e
    if isinstance(c, bool):
        return a if c else b
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkbool(z3.If(c, as_z3bool(a), as_z3bool(b)))
    ia, ib = norm_int(a), norm_int(b)
    if ia is not None and ib is not None:
        la, ha = bounds(ia)
        lb, hb = bounds(ib)
        lo, hi = min(la, lb), max(ha, hb)
        w = width_for(lo, hi)
        return mkint(z3.If(c, fit(ia, w), fit(ib, w)), lo, hi)
    if isinstance(a, Real) or isinstance(b, Real):
        return Real(z3.If(c, to_real(a).r, to_real(b).r))
    fa, fb = to_flt(a), to_flt(b)
    if fa.kind or fb.kind:
        raise Unsupported("ite over inf/nan")
    e = min(fa.e, fb.e)
    return Flt(ite(mkbool(c), shl(fa.m, fa.e - e), shl(fb.m, fb.e - e)), e)


def shl(x, k):
    if k == 0:
        return x
    if isinstance(x, builtins_int):
        return x << k
    lo, hi = x.lo << k, x.hi << k
    w = width_for(lo, hi)
    return mkint(z3.Concat(z3.Extract(w - k - 1, 0, fit(x, w)), z3.BitVecVal(0, k))
                 if w > k else z3.BitVecVal(0, w), lo, hi)


def shr(x, k):
    if k == 0:
        return x
    if isinstance(x, builtins_int):
        return x >> k
    lo, hi = x.lo >> k, x.hi >> k
    w = x.e.size()
    if k >= w:
        k = w - 1
    return mkint(z3.Extract(w - 1, k, x.e), lo, hi)


def sym_and(a, b):
    a, b = norm_int(a), norm_int(b)
    if isinstance(a, builtins_int) and isinstance(b, builtins_int):
        return a & b
    la, ha = bounds(a)
    lb, hb = bounds(b)
    if la >= 0 and lb >= 0:
        lo, hi = 0, min(ha, hb)
        # x & (2^k - 1) with x < 2^k
        for x, m in ((a, b), (b, a)):
            if isinstance(m, builtins_int) and (m & (m + 1)) == 0 and bounds(x)[1] <= m:
                return x
            if isinstance(m, builtins_int) and (m & (m + 1)) == 0:
                w = m.bit_length() + 1
                if m == 0:
                    return 0
                return mkint(z3.ZeroExt(1, z3.Extract(w - 2, 0, fit(x, max(w, width_for(*bounds(x)))))), 0, m)
    elif la >= 0:
        lo, hi = 0, ha
    elif lb >= 0:
        lo, hi = 0, hb
    else:
        w = max(width_for(la, ha), width_for(lb, hb))
        lo, hi = -(1 << (w - 1)), max(ha, hb, 0)
    for x, m in ((a, b), (b, a)):
        if isinstance(m, builtins_int) and m >= 0 and (m & (m + 1)) == 0 and m > 0:
            w = m.bit_length()
            return mkint(z3.ZeroExt(1, z3.Extract(w - 1, 0, fit(x, max(w, width_for(*bounds(x)))))), 0, m)
    w = max(width_for(la, ha), width_for(lb, hb))
    return mkint(fit(a, w) & fit(b, w), lo, hi)


def sym_orxor(a, b, op):
    a, b = norm_int(a), norm_int(b)
    if isinstance(a, builtins_int) and isinstance(b, builtins_int):
        return a | b if op == "or" else a ^ b
    la, ha = bounds(a)
    lb, hb = bounds(b)
    w = max(width_for(la, ha), width_for(lb, hb))
    if la >= 0 and lb >= 0:
        lo, hi = 0, (1 << max(ha.bit_length(), hb.bit_length())) - 1
        if op == "or":
            lo = max(la, lb)
    else:
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    x, y = fit(a, w), fit(b, w)
    return mkint(x | y if op == "or" else x ^ y, lo, hi)


def sym_add(a, b):
    a, b = norm_int(a), norm_int(b)
    if isinstance(a, builtins_int) and isinstance(b, builtins_int):
        return a + b
    la, ha = bounds(a)
    lb, hb = bounds(b)
    lo, hi = la + lb, ha + hb
    w = width_for(lo, hi)
    return mkint(fit(a, w) + fit(b, w), lo, hi)


def sym_neg(a):
    if isinstance(a, builtins_int):
        return -a
    lo, hi = -a.hi, -a.lo
    w = width_for(lo, hi)
    return mkint(-fit(a, w), lo, hi)


def sym_sub(a, b):
    a, b = norm_int(a), norm_int(b)
    if isinstance(a, builtins_int) and isinstance(b, builtins_int):
        return a - b
    la, ha = bounds(a)
    lb, hb = bounds(b)
    lo, hi = la - hb, ha - lb
    w = width_for(lo, hi)
    return mkint(fit(a, w) - fit(b, w), lo, hi)


def sym_mul(a, b):
    a, b = norm_int(a), norm_int(b)
    if isinstance(a, builtins_int) and isinstance(b, builtins_int):
        return a * b
    for x, y in ((a, b), (b, a)):
        if isinstance(y, builtins_int):
            if y == 0:
                return 0
            if y == 1:
                return x
            if y > 0 and (y & (y - 1)) == 0:
                return shl(x, y.bit_length() - 1)
    la, ha = bounds(a)
    lb, hb = bounds(b)
    c = [la * lb, la * hb, ha * lb, ha * hb]
    lo, hi = min(c), max(c)
    w = width_for(lo, hi)
    return mkint(fit(a, w) * fit(b, w), lo, hi)


def sym_divmod(a, b):
    """Python floor division and modulo (b != 0 must already hold)."""
    a, b = norm_int(a), norm_int(b)
    if isinstance(a, builtins_int) and isinstance(b, builtins_int):
        return divmod(a, b)
    if isinstance(b, builtins_int) and b > 0 and (b & (b - 1)) == 0:
        k = b.bit_length() - 1
        return shr(a, k), sym_and(a, b - 1)
    la, ha = bounds(a)
    lb, hb = bounds(b)
    if lb <= 0 <= hb:
        # exclude zero from the bounds of the divisor
        cands = [x for x in (lb, -1, 1, hb) if x != 0 and lb <= x <= hb]
    else:
        cands = [lb, hb]
    qs = [x // y for x in (la, ha) for y in cands] + ([0] if la <= 0 <= ha else [])
    qlo, qhi = min(qs) , max(qs)
    if la >= 0 and lb > 0:
        w = max(width_for(la, ha), width_for(lb, hb))
        x, y = fit(a, w), fit(b, w)
        mlo, mhi = 0, min(hb - 1, ha)
        return (mkint(z3.UDiv(x, y), qlo, qhi), mkint(z3.URem(x, y), mlo, mhi))
    w = max(width_for(la, ha), width_for(lb, hb), width_for(qlo, qhi)) + 1
    x, y = fit(a, w), fit(b, w)
    m = x % y  # bvsmod: sign follows divisor
    qq = (x - m) / y
    mb = max(abs(lb), abs(hb))
    mlo = -(mb - 1) if lb < 0 else 0
    mhi = mb - 1 if hb > 0 else 0
    return mkint(qq, qlo, qhi), mkint(m, mlo, mhi)


def sym_cmp(a, b, op):
    a, b = norm_int(a), norm_int(b)
    la, ha = bounds(a)
    lb, hb = bounds(b)
    if op == "eq":
        if ha < lb or hb < la:
            return False
        if la == ha == lb == hb:
            return True
    elif op == "lt":
        if ha < lb:
            return True
        if la >= hb:
            return False
    elif op == "le":
        if ha <= lb:
            return True
        if la > hb:
            return False
    if isinstance(a, SymInt) and isinstance(b, SymInt) and a.e.eq(b.e):
        return op != "lt"
    w = max(width_for(la, ha), width_for(lb, hb))
    x, y = fit(a, w), fit(b, w)
    return mkbool(x == y if op == "eq" else x < y if op == "lt" else x <= y)


class SymInt:
    __slots__ = ("e", "lo", "hi")
    __array_priority__ = 1e6

    def __init__(self, e, lo, hi):
        self.e = e
        self.lo = lo
        self.hi = hi

    # numpy: python-int scalar semantics
    def __array_ufunc__(self, uf, method, *inputs, **kw):
        from . import symnp
        return symnp.dispatch_ufunc(uf, method, inputs, kw)

    def _bin(self, o, f, r=False, fl=None):
        i = norm_int(o)
        if i is not None:
            return f(i, self) if r else f(self, i)
        if isinstance(o, (float, Flt, Real)):
            a, b = (o, self) if r else (self, o)
            return fl(a, b)
        return NotImplemented

    def __add__(self, o): return self._bin(o, sym_add, False, f_add)
    def __radd__(self, o): return self._bin(o, sym_add, True, f_add)
    def __sub__(self, o): return self._bin(o, sym_sub, False, f_sub)
    def __rsub__(self, o): return self._bin(o, sym_sub, True, f_sub)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            return o * engine().concretize(self)
        return self._bin(o, sym_mul, False, f_mul)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            return o * engine().concretize(self)
        return self._bin(o, sym_mul, True, f_mul)

    @staticmethod
    def _nz(b):
        if isinstance(b, SymInt):
            if b == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
        elif b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")

    def _fdiv(a, b):
        SymInt._nz(b)
        return sym_divmod(a, b)[0]

    def _fmod(a, b):
        SymInt._nz(b)
        return sym_divmod(a, b)[1]

    def __floordiv__(self, o): return self._bin(o, SymInt._fdiv, False, f_floordiv)
    def __rfloordiv__(self, o): return self._bin(o, SymInt._fdiv, True, f_floordiv)
    def __mod__(self, o): return self._bin(o, SymInt._fmod, False, f_mod)

    def __rmod__(self, o):
        if isinstance(o, str):
            return str.__mod__(o, str(self))
        return self._bin(o, SymInt._fmod, True, f_mod)

    def __divmod__(self, o): return self // o, self % o
    def __rdivmod__(self, o): return o // self, o % self
    def __truediv__(self, o): return f_div(self, o) if norm_int(o) is not None or isinstance(o, (float, Flt, Real)) else NotImplemented
    def __rtruediv__(self, o): return f_div(o, self) if norm_int(o) is not None or isinstance(o, (float, Flt, Real)) else NotImplemented

    def __lshift__(self, o):
        if norm_int(o) is None:
            return NotImplemented
        k = engine().concretize(norm_int(o))
        if k < 0:
            raise ValueError("negative shift count")
        return shl(self, k)

    def __rlshift__(self, o):
        if norm_int(o) is None:
            return NotImplemented
        k = engine().concretize(self)
        if k < 0:
            raise ValueError("negative shift count")
        return shl(norm_int(o), k)

    def __rshift__(self, o):
        if norm_int(o) is None:
            return NotImplemented
        k = engine().concretize(norm_int(o))
        if k < 0:
            raise ValueError("negative shift count")
        return shr(self, k)

    def __rrshift__(self, o):
        if norm_int(o) is None:
            return NotImplemented
        k = engine().concretize(self)
        return shr(norm_int(o), k)

    def __and__(self, o): return NotImplemented if norm_int(o) is None else sym_and(self, o)
    __rand__ = __and__
    def __or__(self, o): return NotImplemented if norm_int(o) is None else sym_orxor(self, o, "or")
    __ror__ = __or__
    def __xor__(self, o): return NotImplemented if norm_int(o) is None else sym_orxor(self, o, "xor")
    __rxor__ = __xor__
    def __invert__(self): return sym_sub(-1, self)
    def __neg__(self): return sym_neg(self)
    def __pos__(self): return self
    def __abs__(self): return sym_abs(self)

    def __pow__(self, o, mod=None):
        if isinstance(o, builtins_int) and o >= 0 and mod is None:
            r = 1
            for _ in range(o):
                r = sym_mul(r, self)
            return r
        return NotImplemented

    def __rpow__(self, o):
        return o ** engine().concretize(self)

    def _cmp(self, o, op, swap=False):
        i = norm_int(o)
        if i is not None:
            return sym_cmp(i, self, op) if swap else sym_cmp(self, i, op)
        if isinstance(o, (float, Flt, Real)):
            return f_cmp(o, self, op) if swap else f_cmp(self, o, op)
        return NotImplemented

    def __eq__(self, o): return self._cmp(o, "eq")

    def __ne__(self, o):
        r = self._cmp(o, "eq")
        return r if r is NotImplemented else sym_not(r)

    def __lt__(self, o): return self._cmp(o, "lt")
    def __le__(self, o): return self._cmp(o, "le")
    def __gt__(self, o): return self._cmp(o, "lt", True)
    def __ge__(self, o): return self._cmp(o, "le", True)
    def __bool__(self): return engine().branch(as_z3bool(self != 0))
    def __hash__(self): return 0x5EED
    def __index__(self): return engine().concretize(self)
    def __int__(self): return engine().concretize(self)

    def __float__(self):
        raise Unsupported("float() of a symbolic int outside the shim")

    def __round__(self, nd=None):
        if nd is None or nd >= 0:
            return self
        raise Unsupported("round(int, negative)")

    def __trunc__(self): return self
    def __floor__(self): return self
    def __ceil__(self): return self
    def __format__(self, spec): return fmt_int(self, spec)
    def __str__(self): return fmt_int(self, "d")
    def __repr__(self): return f"SymInt[{self.lo},{self.hi}]"
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        from .symio import SymBytes
        length = builtins_int(length)
        lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed \
            else (0, (1 << (8 * length)) - 1)
        if self.lo < lo or self.hi > hi:
            if not ((self >= lo) & (self <= hi) if not isinstance(self >= lo, bool) else (self >= lo) and (self <= hi)):
                raise OverflowError("int too big to convert")
        bs = [sym_and(shr(self, 8 * i), 255) for i in range(length)]
        if byteorder == "big":
            bs.reverse()
        return SymBytes(bs)

    def bit_length(self):
        a = sym_abs(self)
        n = bounds(a)[1].bit_length()
        r = 0
        for k in range(n):
            r = ite(a >= (1 << k), k + 1, r)
        return r

    @property
    def real(self): return self
    @property
    def imag(self): return 0
    @property
    def numerator(self): return self
    @property
    def denominator(self): return 1

    def is_integer(self): return True
    def conjugate(self): return self
    def as_integer_ratio(self): return (self, 1)


def sym_abs(a):
    if isinstance(a, builtins_int):
        return abs(a)
    if a.lo >= 0:
        return a
    r = ite(a < 0, sym_neg(a), a)
    if isinstance(r, SymInt) and r.lo < 0:
        hi = max(-a.lo, a.hi)
        r = mkint(fit(r, width_for(0, hi)), 0, hi)
    return r


def sym_not(b):
    if isinstance(b, bool):
        return not b
    return mkbool(z3.Not(b.e))


def band(a, b):
    if isinstance(a, bool):
        return b if a else False
    if isinstance(b, bool):
        return a if b else False
    return mkbool(z3.And(as_z3bool(a), as_z3bool(b)))


def bor(a, b):
    if isinstance(a, bool):
        return True if a else b
    if isinstance(b, bool):
        return True if b else a
    return mkbool(z3.Or(as_z3bool(a), as_z3bool(b)))


class SymBool:
    __slots__ = ("e",)
    __array_priority__ = 1e6

    def __init__(self, e):
        self.e = e

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        from . import symnp
        return symnp.dispatch_ufunc(uf, method, inputs, kw)

    def as_int(self):
        # one value per comparison: keep 2-bit signed representation
        return mkint(z3.If(self.e, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)

    def __bool__(self): return engine().branch(self.e)
    def __hash__(self): return 0x5EED

    def _log(self, o, f, fi):
        if isinstance(o, (bool, SymBool)):
            return f(self, o)
        if norm_int(o) is not None:
            return fi(self.as_int(), norm_int(o))
        return NotImplemented

    def __and__(self, o): return self._log(o, band, sym_and)
    __rand__ = __and__
    def __or__(self, o): return self._log(o, bor, lambda a, b: sym_orxor(a, b, "or"))
    __ror__ = __or__

    def __xor__(self, o):
        return self._log(o, lambda a, b: mkbool(z3.Xor(as_z3bool(a), as_z3bool(b))),
                         lambda a, b: sym_orxor(a, b, "xor"))
    __rxor__ = __xor__
    def __invert__(self): return sym_sub(-1, self.as_int())

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.e == as_z3bool(o))
        if norm_int(o) is not None:
            return sym_cmp(self.as_int(), o, "eq")
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __repr__(self): return "SymBool"
    def __index__(self): return builtins_int(bool(self))
    def __int__(self): return builtins_int(bool(self))
    def __format__(self, spec): return format(bool(self), spec)


def _fwd(name):
    def f(self, *a):
        i = self.as_int()
        if isinstance(i, builtins_int):
            return getattr(builtins_int, name)(i, *a)
        return getattr(SymInt, name)(i, *a)
    return f


for _n in ("__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __floordiv__ "
           "__rfloordiv__ __mod__ __truediv__ __rtruediv__ __lshift__ __rlshift__ "
           "__rshift__ __lt__ __le__ __gt__ __ge__ __neg__ __abs__").split():
    setattr(SymBool, _n, _fwd(_n))


# --------------------------------------------------------------------- floats
class Flt:
    """Dyadic number m * 2**e; `kind` is '' or 'inf'/'-inf'/'nan'.

    As a Python-level value it stands for a float (p = 53)."""
    __slots__ = ("m", "e", "kind", "sg")
    __array_priority__ = 1e6

    def __init__(self, m, e=0, kind="", sg=None):
        self.m = m
        self.sg = sg      # a simpler integer of the same sign, if known
        self.e = e
        self.kind = kind

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        from . import symnp
        return symnp.dispatch_ufunc(uf, method, inputs, kw)

    def _ok(self, o):
        return isinstance(o, (float, Flt, Real, Fraction)) or norm_int(o) is not None

    def __add__(self, o): return f_add(self, o) if self._ok(o) else NotImplemented
    def __radd__(self, o): return f_add(o, self) if self._ok(o) else NotImplemented
    def __sub__(self, o): return f_sub(self, o) if self._ok(o) else NotImplemented
    def __rsub__(self, o): return f_sub(o, self) if self._ok(o) else NotImplemented
    def __mul__(self, o): return f_mul(self, o) if self._ok(o) else NotImplemented
    def __rmul__(self, o): return f_mul(o, self) if self._ok(o) else NotImplemented
    def __truediv__(self, o): return f_div(self, o) if self._ok(o) else NotImplemented
    def __rtruediv__(self, o): return f_div(o, self) if self._ok(o) else NotImplemented
    def __floordiv__(self, o): return f_floordiv(self, o) if self._ok(o) else NotImplemented
    def __rfloordiv__(self, o): return f_floordiv(o, self) if self._ok(o) else NotImplemented
    def __mod__(self, o): return f_mod(self, o) if self._ok(o) else NotImplemented
    def __rmod__(self, o): return f_mod(o, self) if self._ok(o) else NotImplemented
    def __neg__(self): return Flt(sym_neg(self.m), self.e) if not self.kind else Flt(0, 0, {"inf": "-inf", "-inf": "inf", "nan": "nan"}[self.kind])
    def __pos__(self): return self
    def __abs__(self): return Flt(sym_abs(self.m), self.e) if not self.kind else Flt(0, 0, "nan" if self.kind == "nan" else "inf")
    def __eq__(self, o): return f_cmp(self, o, "eq") if self._ok(o) else NotImplemented

    def __ne__(self, o):
        return sym_not(f_cmp(self, o, "eq")) if self._ok(o) else NotImplemented

    def __lt__(self, o): return f_cmp(self, o, "lt") if self._ok(o) else NotImplemented
    def __le__(self, o): return f_cmp(self, o, "le") if self._ok(o) else NotImplemented
    def __gt__(self, o): return f_cmp(o, self, "lt") if self._ok(o) else NotImplemented
    def __ge__(self, o): return f_cmp(o, self, "le") if self._ok(o) else NotImplemented

    def __bool__(self):
        if self.kind:
            return True
        return bool(self.m != 0)

    def __hash__(self): return 0x5EED
    def __int__(self): return engine().concretize(f_int(self))

    def __float__(self):
        if self.kind:
            return float(self.kind)
        c = flt_const(self)
        if c is None:
            raise Unsupported("float() of a symbolic float outside the shim")
        return float(c)


    def __round__(self, nd=None):
        if nd is None:
            return f_rint_int(self)
        return f_round_nd(self, nd)

    def __trunc__(self): return f_int(self)
    def __floor__(self): return f_floor_int(self)
    def __ceil__(self): return sym_neg(f_floor_int(-self))
    def __format__(self, spec): return engine().token("flt", self, spec)
    def __str__(self): return engine().token("flt", self, "r")
    def __repr__(self): return f"Flt({self.m!r}*2^{self.e}{self.kind})"
    def is_integer(self): return f_cmp(Flt(f_floor_int(self)), self, "eq")
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


def to_flt(x):
    """Exact conversion (no rounding)."""
    if isinstance(x, Flt):
        return x
    i = norm_int(x)
    if i is not None:
        return Flt(i, 0)
    if isinstance(x, Real):
        raise Unsupported("real to float")
    if hasattr(x, "as_integer_ratio"):
        f = x
        if x != x:
            return Flt(0, 0, "nan")
        try:
            n, d = f.as_integer_ratio()
        except OverflowError:
            return Flt(0, 0, "inf" if x > 0 else "-inf")
        n, d = builtins_int(n), builtins_int(d)
        # strip factors of two from integers
        e = -(d.bit_length() - 1)
        while n and n % (1 << 32) == 0:
            n >>= 32
            e += 32
        return Flt(n, e)
    raise Unsupported(f"to_flt {type(x)}")


def flt_const(x):
    """Concrete Flt -> Fraction, or None if symbolic."""
    if isinstance(x, Real):
        return None
    if isinstance(x.m, builtins_int) and not x.kind:
        return Fraction(x.m) * Fraction(2) ** x.e
    return None


def flt_simplify(m, e):
    if isinstance(m, builtins_int):
        if m == 0:
            return Flt(0, 0)
        tz = (m & -m).bit_length() - 1
        if tz > 0:
            m >>= tz
            e += tz
    return Flt(m, e)


def flt_zero(x):
    m = x.m if x.sg is None else x.sg
    return m == 0 if isinstance(m, builtins_int) else bool(m == 0)


def rne_shift(m, s):
    """Round m (int or SymInt, >= 0) to a multiple of 2**s, ties to even."""
    if s == 0:
        return m
    low = sym_and(m, (1 << s) - 1)
    qd = shr(m, s)
    half = 1 << (s - 1)
    odd = sym_and(qd, 1)
    up = bor(as_b(low > half), band(as_b(low == half), as_b(odd == 1)))
    return shl(sym_add(qd, ite(up, 1, 0)), s)


def as_b(x):
    return x


def f_round(x, p):
    """Round to p significant bits (normal range assumed: exponents here stay
    far from the limits of double / long double)."""
    if p is None or x.kind or isinstance(x, Real):
        return x
    m = x.m
    lo, hi = bounds(m)
    big = max(abs(lo), abs(hi))
    n = big.bit_length()
    if n <= p:
        return flt_simplify(m, x.e)
    if isinstance(m, builtins_int):
        s = n - p
        r = rne_shift(abs(m), s)
        return flt_simplify(-r if m < 0 else r, x.e)
    key = ("round", m.e.get_id(), p)
    cache = engine().path_state
    if key in cache:
        return Flt(cache[key][1], x.e, sg=m if x.sg is None else x.sg)
    a = sym_abs(m)
    w = n + 2
    t = fit(a, w)
    r = t
    for s in range(1, n - p + 1):
        odd = z3.ZeroExt(w - 1, z3.Extract(s, s, t))
        up = t + odd + z3.BitVecVal((1 << (s - 1)) - 1, w)
        v = z3.Concat(z3.Extract(w - 1, s, up), z3.BitVecVal(0, s))
        r = z3.If(z3.UGE(t, z3.BitVecVal(1 << (p + s - 1), w)), v, r)
    hi2 = builtins_int(rne_shift(big, max(0, n - p)))
    top = max(hi2, 1)
    if lo < 0:
        r = z3.If(as_z3bool(m < 0), -r, r)
    wr = width_for(-top if lo < 0 else 0, top)
    r = z3.Extract(wr - 1, 0, r) if wr < w else r if wr == w else z3.SignExt(wr - w, r)
    r = SymInt(r, -top if lo < 0 else 0, top)
    cache[key] = (m, r)
    return Flt(r, x.e, sg=m if x.sg is None else x.sg)


def _align(a, b):
    e = min(a.e, b.e)
    return shl(a.m, a.e - e), shl(b.m, b.e - e), e


def _isreal(a, b):
    return isinstance(a, Real) or isinstance(b, Real)


def f_add(a, b, p=53):
    if _isreal(a, b):
        return rounded(to_real(a).r + to_real(b).r, p)
    a, b = pre(a, p), pre(b, p)
    if a.kind or b.kind:
        return _special(a, b, "add")
    m1, m2, e = _align(a, b)
    return f_round(Flt(sym_add(m1, m2), e), p)


def pre(x, p):
    """Operand conversion to a float of precision p."""
    x0 = x
    x = to_flt(x)
    if isinstance(x0, (Flt, float)) or p is None:
        return x
    return f_round(x, p)


def f_sub(a, b, p=53):
    if _isreal(a, b):
        return rounded(to_real(a).r - to_real(b).r, p)
    a, b = pre(a, p), pre(b, p)
    if a.kind or b.kind:
        return _special(a, b, "sub")
    m1, m2, e = _align(a, b)
    return f_round(Flt(sym_sub(m1, m2), e), p)


def _special(a, b, op):
    """inf/nan operands: only the sign of a finite operand matters."""
    def rep(x):
        if x.kind:
            return float(x.kind)
        if isinstance(x.m, builtins_int):
            return float((x.m > 0) - (x.m < 0))
        return 1.0 if bool(x.m > 0) else -1.0 if bool(x.m < 0) else 0.0
    x, y = rep(a), rep(b)
    if op == "add":
        r = x + y
    elif op == "sub":
        r = x - y
    elif op == "mul":
        r = x * y
    elif op == "div":
        if y == 0:
            raise Unsupported("inf / 0")
        r = x / y
        if b.kind:
            r = r if r != r else 0.0
    else:
        raise Unsupported("arithmetic on inf/nan")
    if r != r:
        return Flt(0, 0, "nan")
    if r in (float("inf"), float("-inf")):
        return Flt(0, 0, "inf" if r > 0 else "-inf")
    return Flt(builtins_int(r), 0)


def f_mul(a, b, p=53):
    if _isreal(a, b):
        return rounded(to_real(a).r * to_real(b).r, p)
    a, b = pre(a, p), pre(b, p)
    if a.kind or b.kind:
        return _special(a, b, "mul")
    a, b = (x if isinstance(x.m, SymInt) else flt_simplify(x.m, x.e) for x in (a, b))
    sg = None
    for u, v in ((a, b), (b, a)):
        if isinstance(v.m, builtins_int) and v.m > 0:
            sg = u.m if u.sg is None else u.sg
    return f_round(Flt(sym_mul(a.m, b.m), a.e + b.e, sg=sg), p)


def f_div(a, b, p=53, python=True):
    if _isreal(a, b):
        d = to_real(b)
        if bool(d == 0):
            if python:
                raise ZeroDivisionError("float division by zero")
            return Flt(0, 0, "nan")
        return rounded(to_real(a).r / d.r, p)
    a, b = pre(a, p), pre(b, p)
    if a.kind or b.kind:
        return _special(a, b, "div")
    if flt_zero(b):
        if python:
            raise ZeroDivisionError("float division by zero")
        if flt_zero(a):
            return Flt(0, 0, "nan")
        neg = (a.m < 0) if isinstance(a.m, builtins_int) else bool(a.m < 0)
        return Flt(0, 0, "-inf" if neg else "inf")
    c = flt_const(b)
    if c is not None:
        bb = flt_simplify(b.m, b.e)
        if abs(bb.m) == 1:
            return flt_simplify(a.m if bb.m == 1 else sym_neg(a.m), a.e - bb.e)
        b = bb
    if isinstance(a.m, SymInt) and isinstance(b.m, SymInt) and max(abs(v) for v in (*bounds(a.m), *bounds(b.m))) <= 32:
        # small counts: one path per pair of values
        return f_div(Flt(engine().concretize(a.m), a.e), Flt(engine().concretize(b.m), b.e), p, python)
    # correctly rounded quotient: floor quotient with enough bits + sticky bit
    am, bm = sym_abs(a.m), sym_abs(b.m)
    K = (p or 64) + 3 + bounds(bm)[1].bit_length()
    num = shl(am, K)
    qd, r = sym_divmod(num, bm)
    st = ite(r != 0, 1, 0)
    m = sym_add(shl(qd, 1), st)
    x = f_round(Flt(m, a.e - b.e - K - 1), p)
    neg_a = (a.m < 0)
    neg_b = (b.m < 0)
    if neg_a is False and neg_b is False:
        return x
    neg = mkbool(z3.Xor(as_z3bool(neg_a), as_z3bool(neg_b)))
    return Flt(ite(neg, sym_neg(x.m), x.m), x.e)


def f_floordiv(a, b, p=53, python=True):
    if _isreal(a, b):
        return Real(z3.ToReal(z3.ToInt((to_real(a) / to_real(b)).r)))
    a, b = pre(a, p), pre(b, p)
    if a.kind or b.kind:
        return _special(a, b, "fdiv")
    if flt_zero(b):
        if python:
            raise ZeroDivisionError("float divmod()")
        if flt_zero(a):
            return Flt(0, 0, "nan")
        neg = (a.m < 0) if isinstance(a.m, builtins_int) else bool(a.m < 0)
        return Flt(0, 0, "-inf" if neg else "inf")
    m1, m2, _ = _align(a, b)
    if isinstance(m2, SymInt) and max(map(abs, bounds(m1) + bounds(m2))) >> 48:
        # wide symbolic division: left unconstrained (over-approximation)
        cache = engine().path_state
        key = ("fdiv", m1 if isinstance(m1, builtins_int) else m1.e.get_id(), m2.e.get_id())
        if key not in cache:
            cache[key] = (m1, m2, z3.BitVec(f"havoc!{len(cache)}", 65))
        h = cache[key][2]
        q_ = SymInt(h, -(1 << 64), (1 << 64) - 1)
        return Flt(q_, 0)
    return f_round(Flt(sym_divmod(m1, m2)[0], 0), p)


def f_mod(a, b, p=53):
    if _isreal(a, b):
        ra, rb = to_real(a), to_real(b)
        return Real(ra.r - rb.r * z3.ToReal(z3.ToInt(ra.r / rb.r)))
    a, b = pre(a, p), pre(b, p)
    if a.kind or b.kind:
        return _special(a, b, "mod")
    if flt_zero(b):
        raise ZeroDivisionError("float modulo")
    m1, m2, e = _align(a, b)
    return f_round(Flt(sym_divmod(m1, m2)[1], e), p)


def f_cmp(a, b, op):
    if _isreal(a, b):
        x, y = to_real(a).r, to_real(b).r
        return mkbool(x == y if op == "eq" else x < y if op == "lt" else x <= y)
    a, b = to_flt(a), to_flt(b)
    if a.kind or b.kind:
        if "nan" in (a.kind, b.kind):
            return False
        rank = {"-inf": -1, "": 0, "inf": 1}
        x, y = rank[a.kind], rank[b.kind]
        return x == y if op == "eq" else x < y if op == "lt" else x <= y
    for u, v, first in ((a, b, True), (b, a, False)):
        if u.sg is not None and isinstance(v.m, builtins_int) and v.m == 0:
            return sym_cmp(u.sg, 0, op) if first else sym_cmp(0, u.sg, op)
    m1, m2, _ = _align(a, b)
    return sym_cmp(m1, m2, op)


def f_floor_int(x):
    if isinstance(x, Real):
        return RealInt(z3.ToInt(x.r))
    if x.kind:
        raise OverflowError("cannot convert float infinity to integer")
    if x.e >= 0:
        return shl(x.m, x.e)
    return shr(x.m, -x.e)


def f_int(x):
    """Truncation toward zero."""
    if isinstance(x, Real):
        f = z3.ToInt(x.r)
        return RealInt(z3.If(z3.And(x.r < 0, z3.ToReal(f) != x.r), f + 1, f))
    if x.kind == "nan":
        raise ValueError("cannot convert float NaN to integer")
    if x.kind:
        raise OverflowError("cannot convert float infinity to integer")
    if x.e >= 0:
        return shl(x.m, x.e)
    a = shr(sym_abs(x.m), -x.e)
    return ite(x.m < 0, sym_neg(a), a)


def f_rint_int(x):
    if isinstance(x, Real):
        f = z3.ToInt(x.r)
        d = x.r - z3.ToReal(f)
        return RealInt(z3.If(d < q(Fraction(1, 2)), f,
                             z3.If(d > q(Fraction(1, 2)), f + 1,
                                   z3.If(f % 2 == 0, f, f + 1))))
    if x.kind == "nan":
        raise ValueError("cannot convert float NaN to integer")
    if x.kind:
        raise OverflowError("cannot convert float infinity to integer")
    if x.e >= 0:
        return shl(x.m, x.e)
    a = rne_shift(sym_abs(x.m), -x.e)
    a = shr(a, -x.e)
    return ite(x.m < 0, sym_neg(a), a)


def f_round_nd(x, nd):
    if isinstance(x, Real):
        s = 10 ** nd
        return Real(f_rint_int(Real(x.r * s)).r / s)
    if nd == 0:
        return Flt(f_rint_int(x), 0)
    c = flt_const(x)
    if c is not None:
        return round(float(c), nd)
    m = engine().concretize(x.m, 64)
    return round(float(Fraction(m) * Fraction(2) ** x.e), nd)


# ---------------------------------------------------------------------- reals
class Real:
    """Idealised float: exact real arithmetic."""
    __slots__ = ("r",)
    __array_priority__ = 1e6
    kind = ""

    def __init__(self, r):
        self.r = r

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        from . import symnp
        return symnp.dispatch_ufunc(uf, method, inputs, kw)

    def _ok(self, o):
        return isinstance(o, (float, Flt, Real, Fraction)) or norm_int(o) is not None

    def __add__(self, o): return rounded(self.r + to_real(o).r) if self._ok(o) else NotImplemented
    __radd__ = __add__
    def __sub__(self, o): return rounded(self.r - to_real(o).r) if self._ok(o) else NotImplemented
    def __rsub__(self, o): return rounded(to_real(o).r - self.r) if self._ok(o) else NotImplemented
    def __mul__(self, o): return rounded(self.r * to_real(o).r) if self._ok(o) else NotImplemented
    __rmul__ = __mul__
    def __truediv__(self, o): return f_div(self, o) if self._ok(o) else NotImplemented
    def __rtruediv__(self, o): return f_div(o, self) if self._ok(o) else NotImplemented
    def __floordiv__(self, o): return f_floordiv(self, o) if self._ok(o) else NotImplemented
    def __rfloordiv__(self, o): return f_floordiv(o, self) if self._ok(o) else NotImplemented
    def __mod__(self, o): return f_mod(self, o) if self._ok(o) else NotImplemented
    def __rmod__(self, o): return f_mod(o, self) if self._ok(o) else NotImplemented
    def __neg__(self): return Real(-self.r)
    def __pos__(self): return self
    def __abs__(self): return Real(z3.If(self.r < 0, -self.r, self.r))

    def __pow__(self, n):
        if isinstance(n, builtins_int) and n >= 0:
            r = z3.RealVal(1)
            for _ in range(n):
                r = r * self.r
            return Real(r)
        return NotImplemented

    def __eq__(self, o): return f_cmp(self, o, "eq") if self._ok(o) else NotImplemented
    def __ne__(self, o): return sym_not(f_cmp(self, o, "eq")) if self._ok(o) else NotImplemented
    def __lt__(self, o): return f_cmp(self, o, "lt") if self._ok(o) else NotImplemented
    def __le__(self, o): return f_cmp(self, o, "le") if self._ok(o) else NotImplemented
    def __gt__(self, o): return f_cmp(o, self, "lt") if self._ok(o) else NotImplemented
    def __ge__(self, o): return f_cmp(o, self, "le") if self._ok(o) else NotImplemented
    def __bool__(self): return bool(mkbool(self.r != 0))
    def __hash__(self): return 0x5EED

    def __round__(self, nd=None):
        return f_rint_int(self) if nd is None else f_round_nd(self, nd)

    def __trunc__(self): return f_int(self)
    def __floor__(self): return f_floor_int(self)
    def __format__(self, spec): return engine().token("flt", self, spec)
    def __str__(self): return engine().token("flt", self, "r")
    def __repr__(self): return f"Real({self.r})"
    def is_integer(self): return mkbool(z3.ToReal(z3.ToInt(self.r)) == self.r)
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


def rounded(e, p=53):
    """Real of an operation; with rounding on, any value within the relative
    error of one correctly rounded operation (an over-approximation)."""
    E = engine()
    if E is None or not E.rounding or p is None or p > 64:
        return Real(e)
    x = z3.FreshReal("fl")
    u = q(Fraction(1, 1 << p))
    E.solver.add(x - e <= u * z3.If(e < 0, -e, e), e - x <= u * z3.If(e < 0, -e, e))
    E.model = None
    return Real(x)


class RealInt(Real):
    """An integer obtained from a Real (kept as an integer-sorted z3 term)."""
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i
        self.r = z3.ToReal(i)

    def __format__(self, spec): return engine().token("rint", self, spec)
    def __str__(self): return engine().token("rint", self, "d")

    def __index__(self):
        e = engine()
        for _ in range(64):
            v = e._try_value(lambda m: m.eval(self.i, model_completion=True).as_long())
            if e.branch(self.i == v):
                return v
        raise Unsupported("too many integer values of a real")

    def __int__(self): return self.__index__()

    def _i(self, o):
        if isinstance(o, RealInt):
            return o.i
        n = norm_int(o)
        if isinstance(n, builtins_int):
            return z3.IntVal(n)
        if isinstance(n, SymInt):
            return z3.BV2Int(n.e, True)
        return None

    def __add__(self, o):
        i = self._i(o)
        return RealInt(self.i + i) if i is not None else Real.__add__(self, o)
    __radd__ = __add__

    def __sub__(self, o):
        i = self._i(o)
        return RealInt(self.i - i) if i is not None else Real.__sub__(self, o)

    def __rsub__(self, o):
        i = self._i(o)
        return RealInt(i - self.i) if i is not None else Real.__rsub__(self, o)

    def __mul__(self, o):
        i = self._i(o)
        return RealInt(self.i * i) if i is not None else Real.__mul__(self, o)
    __rmul__ = __mul__

    def __floordiv__(self, o):
        i = self._i(o)
        if i is not None and z3.is_int_value(i) and i.as_long() > 0:
            return RealInt(self.i / i)
        return Real.__floordiv__(self, o)

    def __mod__(self, o):
        i = self._i(o)
        if i is not None and z3.is_int_value(i) and i.as_long() > 0:
            return RealInt(self.i % i)
        return Real.__mod__(self, o)

    def __lshift__(self, o):
        return RealInt(self.i * (1 << o)) if isinstance(o, builtins_int) else NotImplemented

    def __rshift__(self, o):
        return RealInt(self.i / z3.IntVal(1 << o)) if isinstance(o, builtins_int) else NotImplemented

    def __and__(self, o):
        if isinstance(o, builtins_int) and o > 0 and o & (o + 1) == 0:
            return RealInt(self.i % z3.IntVal(o + 1))
        return NotImplemented
    __rand__ = __and__

    def __neg__(self): return RealInt(-self.i)
    def __trunc__(self): return self
    def __round__(self, nd=None): return self
    __hash__ = Real.__hash__


def to_real(x):
    if isinstance(x, Real):
        return x
    if isinstance(x, Flt):
        if x.kind:
            raise Unsupported("inf as real")
        c = flt_const(x)
        if c is not None:
            return Real(q(c))
        return Real(z3.ToReal(z3.BV2Int(x.m.e, True)) * q(Fraction(2) ** x.e))
    i = norm_int(x)
    if isinstance(i, builtins_int):
        return Real(z3.RealVal(i))
    if isinstance(i, SymInt):
        return Real(z3.ToReal(z3.BV2Int(i.e, True)))
    if hasattr(x, "as_integer_ratio"):
        n, d = x.as_integer_ratio()
        return Real(q(Fraction(builtins_int(n), builtins_int(d))))
    raise Unsupported(f"to_real {type(x)}")


# ------------------------------------------------------------------ formatting
def parse_spec(spec):
    import re
    m = re.fullmatch(r"(?:(.)?([<>=^]))?([-+ ])?(#)?(0)?(\d+)?([,_])?(?:\.(\d+))?([a-zA-Z%])?", spec)
    if not m:
        raise Unsupported(f"format spec {spec!r}")
    fill, align, sign, alt, zero, width, comma, prec, typ = m.groups()
    return dict(fill=fill, align=align, sign=sign, alt=bool(alt), zero=bool(zero),
                width=builtins_int(width or 0), prec=prec, type=typ or "", comma=comma)


def hex_digits(x, n):
    e = engine()
    out = []
    for i in reversed(range(n)):
        d = sym_and(shr(x, 4 * i), 15)
        out.append("0123456789abcdef"[d] if isinstance(d, builtins_int) else e.token("hex", d))
    return "".join(out)


def fmt_int(x, spec):
    s = parse_spec(spec)
    e = engine()
    if s["type"] in ("x", "X"):
        neg = False
        if x.lo < 0:
            if x < 0:
                neg, x = True, sym_neg(x)
            else:
                x = mkint(fit(x, width_for(0, x.hi)), 0, x.hi)
            if isinstance(x, builtins_int):
                return format(-x if neg else x, spec)
        maxd = max(1, -(-x.hi.bit_length() // 4))
        prefix = ("-" if neg else "") + ("0x" if s["alt"] else "")
        w = s["width"] - len(prefix) if (s["zero"] or (s["fill"] == "0" and s["align"] in ("=", ">", None))) else 0
        mind = max(1, w)
        n = mind
        while n < maxd:
            if x < (1 << (4 * n)):
                break
            n += 1
        txt = prefix + hex_digits(x, n)
        if s["width"] > len(txt):
            f = s["fill"] or " "
            a = s["align"] or ">"
            txt = txt.rjust(s["width"], f) if a == ">" else txt.ljust(s["width"], f) if a == "<" else txt.center(s["width"], f)
        return txt
    if s["type"] in ("", "d", "n"):
        if x.hi - x.lo <= 40:
            return format(e.concretize(x), spec)
        return e.token("dec", x, spec)
    return e.token("fmtint", x, spec)


# ------------------------------------------------------------------ evaluation
def eval_int(m, x):
    if isinstance(x, builtins_int):
        return builtins_int(x)
    v = m.eval(x.e, model_completion=True)
    return v.as_signed_long()


def z3_fraction(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(40)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported("unevaluated real")


def eval_any(m, x):
    """Concrete Python value of a symbolic value under a model."""
    if isinstance(x, SymInt):
        return eval_int(m, x)
    if isinstance(x, SymBool):
        return z3.is_true(m.eval(x.e, model_completion=True))
    if isinstance(x, Flt):
        if x.kind:
            return float(x.kind)
        return Fraction(eval_int(m, x.m)) * Fraction(2) ** x.e
    if isinstance(x, RealInt):
        return m.eval(x.i, model_completion=True).as_long()
    if isinstance(x, Real):
        return z3_fraction(m.eval(x.r, model_completion=True))
    return x
