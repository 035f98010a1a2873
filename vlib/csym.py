"""Symbolic executor for the LLVM IR of the project's C program.

Memory is byte-exact (objects of known size, unwritten bytes are undefined);
integers are Python ints or z3 bit-vectors; every branch on a symbolic value
forks through the path engine; undefined behaviour ends the path or, where it
depends on symbolic values, becomes an obligation."""
import math

from . import sym
from .llir import IRError, Module
from .sym import (Flt, Hang, SymInt, Unsupported, as_z3bool, engine, f_add, f_cmp, f_div, f_int, f_mul, f_round,
                  f_sub, fit, mkint, to_flt, z3)


class UB(Exception):
    pass


class Exit(Exception):
    def __init__(self, code):
        self.code = code


class _Undef:
    def __repr__(self): return "undef"


UNDEF = _Undef()


class Obj:
    __slots__ = ("size", "data", "name", "alive", "const", "heap")

    def __init__(self, size, name, fill=None, const=False, heap=False):
        self.size, self.name, self.alive, self.const, self.heap = size, name, True, const, heap
        self.data = [fill] * size


class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off=0):
        self.o, self.off = o, off

    def __repr__(self): return f"&{self.o.name if self.o else 0}+{self.off}"


class PInt:
    """A pointer converted to an integer."""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


NULL = Ptr(None, 0)


class NumTok:
    """The decimal text of a (symbolic) integer, standing in for its characters.
    Only number conversions may look inside."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


def signed(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def bv(v, w):
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if isinstance(v, NumTok):
        raise Unsupported("characters of a symbolic number")
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def from_sym(v, w):
    """Harness value -> machine integer of w bits."""
    if isinstance(v, NumTok):
        return v
    if isinstance(v, int):
        return v & ((1 << w) - 1)
    return z3.simplify(fit(v, w))


def to_sym(v, w, is_signed=False):
    if isinstance(v, int):
        return signed(v, w) if is_signed else v
    if is_signed:
        return mkint(v, -(1 << (w - 1)), (1 << (w - 1)) - 1)
    return mkint(z3.ZeroExt(1, v), 0, (1 << w) - 1)


class Machine:
    MAXSTEPS = 4_000_000

    def __init__(self, module, io):
        self.m = module
        self.ty = module.types
        self.io = io
        self.steps = 0
        self.obligations = []
        self.globals = {}
        self.errno = Obj(4, "errno", 0)
        self.files = {}
        self.functions_called = set()
        self.stubs = {n[2:]: getattr(self, n) for n in dir(self) if n.startswith("c_")}
        for name, (t, init, const) in module.globals.items():
            self.globals[name] = Obj(self.ty.size(t), name, 0 if init is None else None, const)
        for name, (t, init, const) in module.globals.items():
            if init is not None:
                o = self.globals[name]
                o.const = False
                self.put(Ptr(o), t, self.constant(t, init))
                o.const = const
            elif name in ("@stderr", "@stdout", "@stdin"):
                f = Obj(1, name)
                self.files[f] = name
                self.store(Ptr(self.globals[name]), Ptr(f), 8)

    # ------------------------------------------------------------ constants
    def constant(self, t, d):
        k = d[0]
        t = self.ty.resolve(t)
        if k == "c":
            return d[1] & ((1 << t[1]) - 1)
        if k == "d":
            return d[1]
        if k == "null":
            return NULL
        if k == "undef":
            return UNDEF
        if k == "g":
            return self.address(d[1])
        if k == "zero":
            return 0 if t[0] == "i" else NULL if t[0] == "p" else 0.0 if t[0] == "f" else ("zero",)
        if k in ("str", "agg"):
            return d
        if k == "gep":
            return self.gep(d[1], self.constant(("p",), d[2]), [(a, self.constant(a, b)) for a, b in d[3]])
        raise Unsupported(f"constant {k}")

    def address(self, name):
        if name in self.globals:
            return Ptr(self.globals[name])
        if name[1:] in self.m.functions or name[1:] in self.m.declared:
            return Ptr(Obj(1, "fn:" + name[1:]))
        raise Unsupported(f"global {name}")

    def put(self, p, t, v):
        """Stores an initialiser (possibly aggregate)."""
        t = self.ty.resolve(t)
        if isinstance(v, tuple) and v and v[0] == "zero":
            for i in range(self.ty.size(t)):
                p.o.data[p.off + i] = 0
        elif isinstance(v, tuple) and v and v[0] == "str":
            for i, b in enumerate(v[1]):
                p.o.data[p.off + i] = b
        elif isinstance(v, tuple) and v and v[0] == "agg":
            offs = self.ty.layout(t)[0] if t[0] == "s" else None
            for i, (et, e) in enumerate(v[1]):
                o = offs[i] if offs else i * self.ty.size(et)
                self.put(Ptr(p.o, p.off + o), et, self.constant(et, e))
        else:
            self.store(p, v, self.ty.size(t))

    # --------------------------------------------------------------- memory
    def cell(self, p, n, what):
        if isinstance(p, PInt):
            p = p.p
        if not isinstance(p, Ptr):
            raise UB(f"{what} through an undefined or invented pointer")
        if p.o is None:
            raise UB(f"{what} through a null pointer")
        if not p.o.alive:
            raise UB(f"{what} of dead object {p.o.name}")
        if p.off < 0 or p.off + n > p.o.size:
            raise UB(f"{what} of {n} bytes at offset {p.off} of {p.o.name} ({p.o.size} bytes)")
        return p.o.data, p.off

    def load(self, p, n, kind="i", w=None):
        d, o = self.cell(p, n, "read")
        e = d[o]
        if isinstance(e, tuple) and e[2] == 0 and e[1] == n:
            last = d[o + n - 1]
            if n == 1 or (isinstance(last, tuple) and last[0] is e[0] and last[2] == n - 1 and self.run_ok(d, o, n, e[0])):
                v = e[0]
                if kind == "p" or not isinstance(v, (Ptr, PInt)):
                    if kind != "f" or not isinstance(v, int):
                        return v
        bs = [self.byte(d[o + i]) for i in range(n)]
        if any(b is UNDEF for b in bs):
            return UNDEF
        if n == 1 and isinstance(bs[0], NumTok):
            return bs[0]
        if kind == "p":
            if all(isinstance(b, int) and b == 0 for b in bs):
                return NULL
            raise Unsupported("pointer read from bytes")
        if kind == "f":
            if all(isinstance(b, int) for b in bs):
                import struct
                return struct.unpack("<d" if n == 8 else "<f", bytes(bs))[0]
            raise Unsupported("float read from symbolic bytes")
        if all(isinstance(b, int) for b in bs):
            return int.from_bytes(bytes(bs), "little")
        r = z3.Concat(*[bv(b, 8) for b in reversed(bs)]) if n > 1 else bs[0]
        r = z3.simplify(r)
        return r.as_long() if z3.is_bv_value(r) else r

    @staticmethod
    def run_ok(d, o, n, v):
        for i in range(1, n - 1):
            x = d[o + i]
            if not (isinstance(x, tuple) and x[0] is v and x[2] == i):
                return False
        return True

    @staticmethod
    def byte(e):
        if e is None:
            return UNDEF
        if isinstance(e, tuple):
            v, n, i = e
            if v is UNDEF:
                return UNDEF
            if isinstance(v, int):
                return (v >> (8 * i)) & 255
            if isinstance(v, (float, Flt)):
                if isinstance(v, float):
                    import struct
                    return struct.pack("<d" if n == 8 else "<f", v)[i]
                raise Unsupported("bytes of a symbolic float")
            if isinstance(v, (Ptr, PInt)):
                if isinstance(v, Ptr) and v.o is None:
                    return 0
                raise Unsupported("bytes of a pointer")
            if z3.is_bool(v):
                v = bv(v, 8 * n)
            if v.size() < 8 * n:
                v = z3.ZeroExt(8 * n - v.size(), v)
            return z3.simplify(z3.Extract(8 * i + 7, 8 * i, v))
        return e

    def store(self, p, v, n):
        d, o = self.cell(p, n, "write")
        if p.o.const:
            raise UB(f"write to constant {p.o.name}")
        if n == 1 and (isinstance(v, int) or (not isinstance(v, (Ptr, PInt, float, Flt, _Undef)) and not z3.is_bool(v))):
            d[o] = v
            return
        for i in range(n):
            d[o + i] = (v, n, i)

    def bytes_at(self, p, n):
        d, o = self.cell(p, n, "read") if n else ([], 0)
        return [self.byte(d[o + i]) for i in range(n)]

    def put_bytes(self, p, bs):
        if not bs:
            return
        d, o = self.cell(p, len(bs), "write")
        if p.o.const:
            raise UB(f"write to constant {p.o.name}")
        for i, b in enumerate(bs):
            d[o + i] = b

    def cstr(self, p, limit=100000):
        out = []
        i = 0
        while i < limit:
            b = self.bytes_at(Ptr(p.o, p.off + i) if isinstance(p, Ptr) else p, 1)[0]
            if b is UNDEF:
                raise UB("string function reads an uninitialised byte")
            if isinstance(b, int):
                if b == 0:
                    return out
            elif not isinstance(b, NumTok) and engine().branch(b == 0):
                return out
            out.append(b)
            i += 1
        raise Unsupported("long string")

    # ----------------------------------------------------------- arithmetic
    def truth(self, c):
        if c is UNDEF:
            raise UB("branch on an uninitialised value")
        if isinstance(c, int):
            return bool(c)
        if z3.is_bool(c):
            return engine().branch(c)
        return engine().branch(c != 0)

    def conc(self, v, w=64, sgn=True):
        """Concrete integer (forks over the possible values)."""
        if isinstance(v, int):
            return signed(v, w) if sgn else v
        if v is UNDEF:
            raise UB("uninitialised value used as a size, index or argument")
        if isinstance(v, (Ptr, PInt, float, Flt)):
            raise Unsupported("integer expected")
        return engine().concretize(to_sym(bv(v, w), w, sgn))

    def oblige(self, what, ok):
        ok = z3.simplify(ok)
        if z3.is_true(ok):
            return
        if z3.is_false(ok):
            raise UB(what)
        self.obligations.append((what, ok))

    def binop(self, op, nsw, w, a, b):
        if isinstance(a, PInt) or isinstance(b, PInt):
            return self.ptr_arith(op, a, b)
        if a is UNDEF or b is UNDEF:
            if op in ("udiv", "sdiv", "urem", "srem") and b is UNDEF:
                raise UB("division by an uninitialised value")
            if op == "and" and (a == 0 if isinstance(a, int) else b == 0 if isinstance(b, int) else False):
                return 0
            return UNDEF
        mask = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            if op in ("add", "sub", "mul"):
                f = {"add": int.__add__, "sub": int.__sub__, "mul": int.__mul__}[op]
                if nsw:
                    r = f(signed(a, w), signed(b, w))
                    if not -(1 << (w - 1)) <= r < (1 << (w - 1)):
                        raise UB(f"signed overflow in {op} i{w}")
                    return r & mask
                return f(a, b) & mask
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op in ("shl", "lshr", "ashr"):
                if b >= w:
                    raise UB(f"shift of i{w} by {b}")
                if op == "shl":
                    if nsw and not -(1 << (w - 1)) <= signed(a, w) << b < (1 << (w - 1)):
                        raise UB("signed overflow in shl")
                    return (a << b) & mask
                return a >> b if op == "lshr" else (signed(a, w) >> b) & mask
            if b == 0:
                raise UB("division by zero")
            if op == "udiv":
                return a // b
            if op == "urem":
                return a % b
            x, y = signed(a, w), signed(b, w)
            q = abs(x) // abs(y)
            q = q if (x < 0) == (y < 0) else -q
            if q >= 1 << (w - 1):
                raise UB("division overflow")
            return (q if op == "sdiv" else x - q * y) & mask
        # z3 operators of PyPy's bindings are slow: avoid trivial work
        if isinstance(b, int):
            if b == 0 and op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
                return a
            if b == 0 and op in ("mul", "and"):
                return 0
            if b == 1 and op in ("mul", "sdiv", "udiv"):
                return a
            if b == mask and op == "and":
                return a
        if isinstance(a, int):
            if a == 0 and op in ("add", "or", "xor"):
                return b
            if a == 0 and op in ("mul", "and"):
                return 0
        A, B = bv(a, w), bv(b, w)
        if w == 1:
            A, B = (z3.BitVecVal(x, 1) if isinstance(x, int) else bv(x, 1) for x in (a, b))
        if nsw and op in ("add", "sub", "mul"):
            ok = {"add": lambda: z3.And(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B)),
                  "sub": lambda: z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True)),
                  "mul": lambda: z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B))}[op]()
            self.oblige(f"no signed overflow in {op} i{w}", ok)
        if op == "add":
            r = A + B
        elif op == "sub":
            r = A - B
        elif op == "mul":
            r = A * B
        elif op == "and":
            r = A & B
        elif op == "or":
            r = A | B
        elif op == "xor":
            r = A ^ B
        elif op in ("shl", "lshr", "ashr"):
            if not isinstance(b, int):
                self.oblige(f"shift amount below {w}", z3.ULT(B, w))
            elif b >= w:
                raise UB(f"shift of i{w} by {b}")
            r = A << B if op == "shl" else z3.LShR(A, B) if op == "lshr" else A >> B
        else:
            if not isinstance(b, int) and engine().branch(B == 0):
                raise UB("division by zero")
            if isinstance(b, int) and b == 0:
                raise UB("division by zero")
            if op in ("sdiv", "srem"):
                self.oblige("no division overflow", z3.Not(z3.And(A == z3.BitVecVal(1 << (w - 1), w), B == z3.BitVecVal(mask, w))))
            r = {"udiv": z3.UDiv, "urem": z3.URem, "sdiv": lambda x, y: x / y, "srem": z3.SRem}[op](A, B)
        return self.tidy(r)

    @staticmethod
    def tidy(r):
        r = z3.simplify(r)
        return r.as_long() if z3.is_bv_value(r) else r

    def ptr_arith(self, op, a, b):
        if isinstance(a, PInt) and isinstance(b, PInt) and op == "sub" and a.p.o is b.p.o:
            return (a.p.off - b.p.off) & ((1 << 64) - 1)
        if isinstance(a, PInt) and isinstance(b, int) and op in ("add", "sub"):
            k = signed(b, 64)
            return PInt(Ptr(a.p.o, a.p.off + (k if op == "add" else -k)))
        raise Unsupported("pointer arithmetic")

    def icmp(self, pred, t, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, NumTok) or isinstance(b, NumTok):
            o = b if isinstance(a, NumTok) else a
            if pred in ("eq", "ne") and isinstance(o, int) and (o == 0 or not chr(o & 255) in "-0123456789"):
                return int(pred == "ne")
            raise Unsupported("characters of a symbolic number")
        if t[0] == "p" or isinstance(a, PInt) or isinstance(b, PInt):
            a = a.p if isinstance(a, PInt) else a
            b = b.p if isinstance(b, PInt) else b
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                if isinstance(a, int) and a == 0:
                    a = NULL
                elif isinstance(b, int) and b == 0:
                    b = NULL
                else:
                    raise Unsupported("pointer comparison")
            same = a.o is b.o
            if pred in ("eq", "ne"):
                r = same and a.off == b.off
                return int(r == (pred == "eq"))
            if not same:
                raise Unsupported("order of unrelated pointers")
            x, y = a.off, b.off
            return int({"ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}[pred])
        w = t[1]
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == "s":
                a, b = signed(a, w), signed(b, w)
            return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[pred[-2:] if pred not in ("eq", "ne") else pred])
        A, B = bv(a, w), bv(b, w)
        f = {"eq": lambda: A == B, "ne": lambda: A != B, "slt": lambda: A < B, "sle": lambda: A <= B, "sgt": lambda: A > B,
             "sge": lambda: A >= B, "ult": lambda: z3.ULT(A, B), "ule": lambda: z3.ULE(A, B), "ugt": lambda: z3.UGT(A, B),
             "uge": lambda: z3.UGE(A, B)}[pred]
        r = z3.simplify(f())
        return 1 if z3.is_true(r) else 0 if z3.is_false(r) else r

    def cast(self, op, t, v, t2):
        if v is UNDEF:
            return 0 if op == "freeze" else UNDEF
        if isinstance(v, NumTok):
            return v
        if op == "zext" or op == "sext":
            w, w2 = t[1], t2[1]
            if isinstance(v, int):
                return v if op == "zext" else signed(v, w) & ((1 << w2) - 1)
            if z3.is_bool(v):
                return z3.If(v, z3.BitVecVal(1 if op == "zext" else (1 << w2) - 1, w2), z3.BitVecVal(0, w2))
            return self.tidy((z3.ZeroExt if op == "zext" else z3.SignExt)(w2 - w, v))
        if op == "trunc":
            w2 = t2[1]
            if isinstance(v, int):
                return v & ((1 << w2) - 1)
            if isinstance(v, PInt):
                raise Unsupported("truncated pointer")
            r = z3.Extract(w2 - 1, 0, bv(v, t[1]))
            if w2 == 1:
                r = z3.simplify(r == 1)
                return 1 if z3.is_true(r) else 0 if z3.is_false(r) else r
            return self.tidy(r)
        if op in ("sitofp", "uitofp"):
            p = {64: 53, 32: 24, 80: 64}[t2[1]]
            if isinstance(v, int):
                x = signed(v, t[1]) if op == "sitofp" else v
                return f_round(Flt(x, 0), p)
            return f_round(Flt(to_sym(bv(v, t[1]), t[1], op == "sitofp"), 0), p)
        if op in ("fptosi", "fptoui"):
            w = t2[1]
            x = to_flt(v)
            if x.kind:
                raise UB("conversion of inf/nan to integer")
            i = f_int(x)
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op == "fptosi" else (0, (1 << w) - 1)
            if isinstance(i, int):
                if not lo <= i <= hi:
                    raise UB("float out of range of the integer")
                return i & ((1 << w) - 1)
            if i.lo < lo or i.hi > hi:
                c = sym.band(i >= lo, i <= hi)
                if c is not True:
                    # hardware result outside the range: the "indefinite" value
                    self.oblige("float within the range of the integer", as_z3bool(c))
                    i = sym.ite(c, i, lo)
            return self.tidy(fit(i, w))
        if op in ("fpext", "fptrunc"):
            return f_round(to_flt(v), {64: 53, 32: 24, 80: 64}[t2[1]])
        if op == "bitcast" and t == t2 or op == "freeze":
            return v
        if op == "ptrtoint":
            return PInt(v) if v.o is not None else v.off
        if op == "inttoptr":
            if isinstance(v, PInt):
                return v.p
            if isinstance(v, int) and v == 0:
                return NULL
            raise Unsupported("inttoptr")
        raise Unsupported(f"cast {op}")

    def fbin(self, op, t, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        p = {64: 53, 32: 24, 80: 64}[t[1]]
        f = {"fadd": f_add, "fsub": f_sub, "fmul": f_mul}.get(op)
        if op == "fdiv":
            return f_div(to_flt(a), to_flt(b), p, python=False)
        if f is None:
            raise Unsupported(op)
        return f(to_flt(a), to_flt(b), p)

    def gep(self, t, base, idx):
        if base is UNDEF:
            return UNDEF
        if not isinstance(base, Ptr):
            raise Unsupported("address computation")
        off = base.off
        first = True
        for it, v in idx:
            k = self.conc(v, it[1])
            if first:
                off += k * self.ty.size(t)
                first = False
                continue
            t = self.ty.resolve(t)
            if t[0] == "a":
                t = t[2]
                off += k * self.ty.size(t)
            elif t[0] == "s":
                off += self.ty.layout(t)[0][k]
                t = t[1][k]
            else:
                raise Unsupported("gep")
        return Ptr(base.o, off)

    # ------------------------------------------------------------ execution
    def run_main(self, argv):
        args = []
        for a in argv:
            o = Obj(len(a) + 1, "argument", 0)
            for i, c in enumerate(a):
                o.data[i] = from_sym(c, 8)
            args.append(Ptr(o))
        vec = Obj(8 * (len(args) + 1), "argv", 0)
        for i, p in enumerate(args + [NULL]):
            self.store(Ptr(vec, 8 * i), p, 8)
        try:
            f = self.m.functions["main"]
            r = self.call(f, [len(args), Ptr(vec), NULL][:len(f.params)])
            return self.conc(r, 32) & 255
        except Exit as e:
            return e.code & 255

    def call(self, f, args):
        self.functions_called.add(f.name)
        regs = {}
        for (t, reg, byval), v in zip(f.params, args):
            if byval:
                n = self.ty.size(byval)
                o = Obj(n, "byval")
                d, off = self.cell(v, n, "read")
                o.data[:] = d[off:off + n]
                v = Ptr(o)
            regs[reg] = v
        frame = []
        try:
            return self.exec(f, regs, frame)
        finally:
            for o in frame:
                o.alive = False

    def exec(self, f, regs, frame):
        block, prev = f.entry, None
        const = self.constant
        ty = self.ty

        def val(t, d):
            if d[0] == "r":
                return regs[d[1]]
            return const(t, d)
        while True:
            code = f.blocks[block]
            nxt = None
            if code[0][0] == "phi":
                vals = []
                for ins in code:
                    if ins[0] != "phi":
                        break
                    for v, lab in ins[3]:
                        if lab == prev:
                            vals.append((ins[1], val(ins[2], v)))
                for r, v in vals:
                    regs[r] = v
            for ins in code:
                self.steps += 1
                op = ins[0]
                if op == "load":
                    t = ins[2]
                    if t[0] == "n" or t[0] in ("s", "a"):
                        raise Unsupported("aggregate load")
                    v = self.load(val(("p",), ins[3]), ty.size(t), t[0])
                    if t[0] == "i" and v is not UNDEF and not isinstance(v, (PInt, Ptr)) and t[1] != 8 * ty.size(t):
                        v = self.cast("trunc", ("i", 8 * ty.size(t)), v, t) if isinstance(v, int) or z3.is_bv(v) else v
                    regs[ins[1]] = v
                elif op == "store":
                    self.store(val(("p",), ins[3]), val(ins[1], ins[2]), ty.size(ins[1]))
                elif op == "bin":
                    regs[ins[1]] = self.binop(ins[2], ins[3], ins[4][1], val(ins[4], ins[5]), val(ins[4], ins[6]))
                elif op == "icmp":
                    regs[ins[1]] = self.icmp(ins[2], ins[3], val(ins[3], ins[4]), val(ins[3], ins[5]))
                elif op == "br":
                    nxt = ins[2] if self.truth(val(("i", 1), ins[1])) else ins[3]
                    break
                elif op == "jmp":
                    nxt = ins[1]
                    break
                elif op == "gep":
                    regs[ins[1]] = self.gep(ins[2], val(("p",), ins[3]), [(a, val(a, b)) for a, b in ins[4]])
                elif op == "cast":
                    regs[ins[1]] = self.cast(ins[2], ins[3], val(ins[3], ins[4]), ins[5])
                elif op == "call":
                    r = self.docall(ins, val)
                    if ins[1]:
                        regs[ins[1]] = r
                elif op == "alloca":
                    o = Obj(ty.size(ins[2]) * self.conc(val(("i", 64), ins[3])), f"{f.name}:{ins[1]}")
                    frame.append(o)
                    regs[ins[1]] = Ptr(o)
                elif op == "ret":
                    return val(*ins[1]) if ins[1] else None
                elif op == "switch":
                    v = val(ins[1], ins[2])
                    nxt = ins[3]
                    if v is UNDEF:
                        raise UB("switch on an uninitialised value")
                    for c, lab in ins[4]:
                        c &= (1 << ins[1][1]) - 1
                        if (v == c) if isinstance(v, int) else engine().branch(bv(v, ins[1][1]) == c):
                            nxt = lab
                            break
                    break
                elif op == "phi":
                    continue
                elif op == "select":
                    c = val(("i", 1), ins[2])
                    a, b = val(ins[3], ins[4]), val(ins[3], ins[5])
                    if isinstance(c, int) or c is UNDEF or ins[3][0] != "i" or UNDEF in (a, b):
                        regs[ins[1]] = a if self.truth(c) else b
                    else:
                        w = ins[3][1]
                        regs[ins[1]] = self.tidy(z3.If(c, bv(a, w), bv(b, w)))
                elif op == "fbin":
                    regs[ins[1]] = self.fbin(ins[2], ins[3], val(ins[3], ins[4]), val(ins[3], ins[5]))
                elif op == "fneg":
                    v = val(ins[2], ins[3])
                    regs[ins[1]] = v if v is UNDEF else -to_flt(v)
                elif op == "fcmp":
                    regs[ins[1]] = self.fcmp(ins[2], val(ins[3], ins[4]), val(ins[3], ins[5]))
                elif op == "extractvalue":
                    v = val(ins[2], ins[3])
                    for k in ins[4]:
                        v = UNDEF if v is UNDEF else v[k]
                    regs[ins[1]] = v
                elif op == "insertvalue":
                    v = val(ins[2], ins[3])
                    n = len(self.ty.resolve(ins[2])[1])
                    v = [UNDEF] * n if v is UNDEF else list(v)
                    v[ins[6][0]] = val(ins[4], ins[5])
                    regs[ins[1]] = v
                elif op == "unreachable":
                    raise UB("unreachable code reached")
                else:
                    raise Unsupported(f"instruction {op}")
            if self.steps > self.MAXSTEPS:
                raise Hang()
            prev, block = block, nxt

    def fcmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        a, b = to_flt(a), to_flt(b)
        k = pred[1:]
        r = {"eq": lambda: f_cmp(a, b, "eq"), "lt": lambda: f_cmp(a, b, "lt"), "le": lambda: f_cmp(a, b, "le"),
             "gt": lambda: f_cmp(b, a, "lt"), "ge": lambda: f_cmp(b, a, "le"), "ne": lambda: sym.sym_not(f_cmp(a, b, "eq"))}[k]()
        if isinstance(r, bool):
            return int(r)
        return as_z3bool(r)

    def docall(self, ins, val):
        callee = ins[3]
        if callee[0] != "g":
            raise Unsupported("indirect call")
        name = callee[1][1:]
        args = [val(t, v) for t, v, _ in ins[4]]
        if name in self.m.functions:
            return self.call(self.m.functions[name], args)
        if name.startswith("llvm."):
            return self.intrinsic(name, args)
        for pre in ("__isoc99_", "__isoc23_"):
            if name.startswith(pre):
                name = name[len(pre):]
        s = self.stubs.get(name)
        if s is None:
            raise Unsupported(f"library function {name}")
        self.vararg_types = [t for t, _, _ in ins[4]]
        r = s(*args)
        w = ins[2]
        if isinstance(r, bool):
            r = int(r)
        if isinstance(r, int) and w[0] == "i":
            r &= (1 << w[1]) - 1
        return r

    def intrinsic(self, name, a):
        base = name.split(".")[1]
        if base == "memset":
            b = a[1]
            n = self.conc(a[2])
            self.put_bytes(a[0], [None if b is UNDEF else b] * n)
            return None
        if base in ("memcpy", "memmove"):
            n = self.conc(a[2])
            if n:
                d, o = self.cell(a[1], n, "read")
                part = d[o:o + n]
                d2, o2 = self.cell(a[0], n, "write")
                d2[o2:o2 + n] = part
            return None
        if base in ("lifetime", "dbg", "assume", "stackrestore", "donothing"):
            return None
        if base == "expect":
            return a[0]
        if base == "stacksave":
            return NULL
        if base == "abs":
            return self.absolute(a[0], int(name.rsplit("i", 1)[1]), True)
        if base in ("smax", "smin", "umax", "umin"):
            w = int(name.rsplit("i", 1)[1])
            pred = {"smax": "sgt", "smin": "slt", "umax": "ugt", "umin": "ult"}[base]
            return a[0] if self.truth(self.icmp(pred, ("i", w), a[0], a[1])) else a[1]
        if base in ("sadd", "ssub", "smul", "uadd", "usub", "umul"):
            w = int(name.rsplit("i", 1)[1])
            op = base[1:]
            A, B = bv(a[0], w), bv(a[1], w)
            ext = z3.SignExt if base[0] == "s" else z3.ZeroExt
            x, y = ext(w, A), ext(w, B)
            r = x + y if op == "add" else x - y if op == "sub" else x * y
            lo = z3.Extract(w - 1, 0, r)
            o = z3.simplify(r != ext(w, lo))
            return [self.tidy(lo), 1 if z3.is_true(o) else 0 if z3.is_false(o) else o]
        if base == "bswap":
            w = int(name.rsplit("i", 1)[1])
            v = a[0]
            if isinstance(v, int):
                return int.from_bytes(v.to_bytes(w // 8, "little"), "big")
            return self.tidy(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(w // 8)]))
        if base in ("fshl", "fshr"):
            w = int(name.rsplit("i", 1)[1])
            k = self.conc(a[2], w, False) % w
            x = z3.Concat(bv(a[0], w), bv(a[1], w))
            x = z3.Extract(2 * w - 1 - k, w - k, x) if base == "fshl" else z3.Extract(w - 1 + k, k, x)
            return self.tidy(x)
        if base in ("fabs",):
            return self.c_fabs(a[0])
        if base in ("trap",):
            raise UB("trap")
        raise Unsupported(f"intrinsic {name}")

    # ------------------------------------------------------------- library
    def absolute(self, v, w, poison=True):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, int):
            x = signed(v, w)
            if x == -(1 << (w - 1)):
                raise UB("absolute value of the smallest integer")
            return abs(x)
        self.oblige("absolute value is representable", v != z3.BitVecVal(1 << (w - 1), w))
        return self.tidy(z3.If(v < 0, -v, v))

    def c_abs(self, v): return self.absolute(v, 32)
    def c_labs(self, v): return self.absolute(v, 64)
    def c_llabs(self, v): return self.absolute(v, 64)

    def _num(self, x):
        x = to_flt(x)
        c = sym.flt_const(x)
        if c is None:
            raise Unsupported("mathematical function of a symbolic value")
        return float(c)

    def c_pow(self, a, b): return math.pow(self._num(a), self._num(b))
    def c_ldexp(self, a, n): return Flt(to_flt(a).m, to_flt(a).e + self.conc(n, 32))
    def c_exp2(self, a): return 2.0 ** self._num(a)
    def c_floor(self, a): return Flt(sym.f_floor_int(to_flt(a)), 0)
    def c_trunc(self, a): return Flt(f_int(to_flt(a)), 0)
    def c_fabs(self, a): return abs(to_flt(a))

    def c_malloc(self, n):
        n = self.conc(n, 64, False)
        if self.io.malloc_fails():
            return NULL
        return Ptr(Obj(n, f"malloc({n})", heap=True))

    def c_calloc(self, n, k):
        n = self.conc(n, 64, False) * self.conc(k, 64, False)
        if self.io.malloc_fails():
            return NULL
        return Ptr(Obj(n, f"calloc({n})", 0, heap=True))

    def c_realloc(self, p, n):
        q = self.c_malloc(n)
        if p.o is not None and q.o is not None:
            k = min(p.o.size, q.o.size)
            q.o.data[:k] = p.o.data[:k]
            p.o.alive = False
        return q

    def c_free(self, p):
        if p is UNDEF:
            raise UB("free of an uninitialised pointer")
        if p.o is None:
            return
        if not p.o.heap or not p.o.alive or p.off:
            raise UB("invalid or double free")
        p.o.alive = False

    def c_exit(self, c): raise Exit(self.conc(c, 32))
    c__exit = c_exit

    def c_abort(self): raise Exit(134)
    def c___errno_location(self): return Ptr(self.errno)

    def set_errno(self, e): self.store(Ptr(self.errno), e, 4)

    def c_strlen(self, p): return len(self.cstr(p))

    def c_strchr(self, p, c):
        c = self.conc(c, 32) & 255
        i = 0
        while True:
            b = self.bytes_at(Ptr(p.o, p.off + i), 1)[0]
            if b is UNDEF:
                raise UB("strchr reads an uninitialised byte")
            if b == c if isinstance(b, int) else engine().branch(b == c):
                return Ptr(p.o, p.off + i)
            if b == 0 if isinstance(b, int) else engine().branch(b == 0):
                return NULL
            i += 1

    def c_memchr(self, p, c, n):
        c = self.conc(c, 32) & 255
        for i in range(self.conc(n, 64, False)):
            b = self.bytes_at(Ptr(p.o, p.off + i), 1)[0]
            if b is UNDEF:
                raise UB("memchr reads an uninitialised byte")
            if b == c if isinstance(b, int) else engine().branch(b == c):
                return Ptr(p.o, p.off + i)
        return NULL

    def _cmp(self, a, b):
        for x, y in zip(a, b):
            eq = x == y if isinstance(x, int) and isinstance(y, int) else engine().branch(bv(x, 8) == bv(y, 8))
            if not eq:
                lt = x < y if isinstance(x, int) and isinstance(y, int) else engine().branch(z3.ULT(bv(x, 8), bv(y, 8)))
                return -1 if lt else 1
        return 0

    def c_strcmp(self, p, q): return self._cmp(self.cstr(p) + [0], self.cstr(q) + [0])

    def c_strncmp(self, p, q, n):
        n = self.conc(n)
        return self._cmp((self.cstr(p) + [0])[:n], (self.cstr(q) + [0])[:n])

    def c_memcmp(self, p, q, n):
        n = self.conc(n)
        return self._cmp(self.bytes_at(p, n), self.bytes_at(q, n))

    def c_strcpy(self, d, s):
        self.put_bytes(d, self.cstr(s) + [0])
        return d

    def c_strncpy(self, d, s, n):
        n = self.conc(n)
        out = []
        i = 0
        while i < n:
            b = self.bytes_at(Ptr(s.o, s.off + i), 1)[0]
            out.append(b)
            if b == 0 if isinstance(b, int) else engine().branch(b == 0):
                break
            i += 1
        self.put_bytes(d, out + [0] * (n - len(out)))
        return d

    def c_memcpy(self, d, s, n):
        self.intrinsic("llvm.memcpy", [d, s, n])
        return d
    c_memmove = c_memcpy

    def c_memset(self, d, c, n):
        b = c & 255 if isinstance(c, int) else self.cast("trunc", ("i", 32), c, ("i", 8))
        self.intrinsic("llvm.memset", [d, b, n])
        return d

    def c_snprintf(self, d, n, fmt, *args):
        n = self.conc(n, 64, False)
        f = bytes(self.cstr(fmt))
        if f != b"%s":
            raise Unsupported("snprintf format")
        s = self.cstr(args[0])
        if n:
            self.put_bytes(d, s[:n - 1] + [0])
        return len(s)

    # text output: only the validity of string arguments matters
    def _fmt(self, fmt, args):
        f = self.cstr(fmt)
        k = 0
        i = 0
        while i < len(f):
            if f[i] == 37:
                i += 1
                while i < len(f) and chr(f[i]) in "0123456789.-+ #lhzjt":
                    i += 1
                if i < len(f) and f[i] != 37:
                    if k >= len(args):
                        raise UB("missing format argument")
                    if args[k] is UNDEF:
                        raise UB("uninitialised value printed")
                    if f[i] == ord("s"):
                        self.cstr(args[k])
                    k += 1
            i += 1
        return 1

    def c_fprintf(self, fp, fmt, *a):
        if self.files.get(fp.o) == "@stdout":
            raise Unsupported("stdout text")
        return self._fmt(fmt, a)

    def c_printf(self, fmt, *a):
        self.io.stdout_text()
        return self._fmt(fmt, a)

    def c_fputs(self, s, fp):
        self.cstr(s)
        if self.files.get(fp.o) == "@stdout":
            self.io.stdout_text()
        return 1

    def c_puts(self, s):
        self.cstr(s)
        self.io.stdout_text()
        return 1

    def c_perror(self, s): self.cstr(s)
    def c_fputc(self, c, fp): return c
    def c_fflush(self, fp): return 0
    def c_fwrite(self, p, n, k, fp):
        self.bytes_at(p, self.conc(n) * self.conc(k))
        if self.files.get(fp.o) == "@stdout":
            raise Unsupported("stdio output")
        return k
    def c_strerror(self, e): return Ptr(Obj(1, "strerror", 0))
    def c_usleep(self, n): return 0
    def c_sleep(self, n): return 0
    def c_nanosleep(self, a, b): return 0
    def c_signal(self, a, b): return NULL
    def c_isatty(self, fd): return 0
    def c_getpid(self): return 4242
    def c_setvbuf(self, *a): return 0
    def c_time(self, p): return 1_700_000_000
    def c_fsync(self, fd): return 0

    # characters
    def _class(self, c, ranges):
        if isinstance(c, int):
            c = signed(c, 32)
            return int(any(a <= c <= b for a, b in ranges))
        r = z3.Or(*[z3.And(c >= a, c <= b) for a, b in ranges])
        return self.tidy(z3.If(r, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))

    def c_isdigit(self, c): return self._class(c, [(48, 57)])
    def c_isspace(self, c): return self._class(c, [(9, 13), (32, 32)])
    def c_isalpha(self, c): return self._class(c, [(65, 90), (97, 122)])
    def c_isalnum(self, c): return self._class(c, [(48, 57), (65, 90), (97, 122)])
    def c_isprint(self, c): return self._class(c, [(32, 126)])

    _ctype = None

    def c___ctype_b_loc(self):
        if self._ctype is None:
            t = Obj(384 * 2, "ctype")
            for i in range(-128, 256):
                c = i & 255
                b = 0
                if i >= 0 and c < 128:
                    ch = chr(c)
                    b = (0x100 * ch.isupper() | 0x200 * ch.islower() | 0x400 * ch.isalpha() | 0x800 * ch.isdigit()
                         | 0x1000 * (ch in "0123456789abcdefABCDEF") | 0x2000 * (ch in " \t\n\v\f\r") | 0x4000 * (32 <= c < 127)
                         | 0x8000 * (32 < c < 127) | 1 * (ch in " \t") | 2 * (c < 32 or c == 127) | 8 * ch.isalnum()
                         | 4 * (32 < c < 127 and not ch.isalnum()))
                self.store(Ptr(t, 2 * (i + 128)), b, 2)
            p = Obj(8, "ctype ptr")
            self.store(Ptr(p), Ptr(t, 256), 8)
            self._ctype = Ptr(p)
        return self._ctype

    # numbers in text
    def _at(self, p, i):
        b = self.bytes_at(Ptr(p.o, p.off + i), 1)[0]
        if b is UNDEF:
            raise UB("number conversion reads an uninitialised byte")
        return b

    def _is(self, b, *chars):
        if isinstance(b, NumTok):
            if all(c == 0 or chr(c) not in "-0123456789" for c in chars):
                return False
            raise Unsupported("characters of a symbolic number")
        if isinstance(b, int):
            return b in chars
        return engine().branch(z3.Or(*[b == c for c in chars]))

    def _range(self, b, lo, hi):
        if isinstance(b, int):
            return lo <= b <= hi
        return engine().branch(z3.And(z3.UGE(b, lo), z3.ULE(b, hi)))

    def number(self, p, i=0, maxlen=10 ** 9):
        """(SymInt|int value or None, index after it) of a decimal number."""
        while self._is(self._at(p, i), 32, 9, 10, 11, 12, 13):
            i += 1
        neg = False
        b = self._at(p, i)
        if isinstance(b, NumTok):
            if maxlen < 20 or self._at(p, i + 1) != 0:
                raise Unsupported("characters of a symbolic number")
            return b.v, i + 1
        end = i + maxlen
        if i < end and self._is(b, 45, 43):
            neg = self._is(b, 45)
            i += 1
        v = 0
        n = 0
        while i < end:
            b = self._at(p, i)
            if not self._range(b, 48, 57):
                break
            d = b - 48 if isinstance(b, int) else mkint(z3.ZeroExt(1, b - 48), 0, 9)
            v = sym.sym_add(sym.sym_mul(v, 10), d)
            n += 1
            i += 1
        if n == 0:
            return None, i
        return (sym.sym_neg(v) if neg else v), i

    def clipped(self, v, lo, hi):
        a, b = sym.bounds(v)
        if b > hi and (b == a or engine().branch(as_z3bool(v > hi))):
            self.set_errno(34)
            return hi
        if a < lo and (b == a or engine().branch(as_z3bool(v < lo))):
            self.set_errno(34)
            return lo
        return v

    def c_strtol(self, p, end, base, lo=-(1 << 63), hi=(1 << 63) - 1):
        b = self.conc(base, 32)
        if b not in (10,):
            try:
                t = bytes(self.cstr(p))
            except TypeError:
                raise Unsupported("strtol base of symbolic text")
            import ctypes
            if b == 0 and not t.strip().lstrip(b"+-").startswith(b"0"):
                b = 10
            else:
                raise Unsupported("strtol base")
        v, i = self.number(p)
        if v is None:
            v, i = 0, 0
        if end.o is not None:
            self.store(end, Ptr(p.o, p.off + i), 8)
        return from_sym(self.clipped(v, lo, hi), 64)

    def c_strtoll(self, p, end, base): return self.c_strtol(p, end, base)
    def c_strtoimax(self, p, end, base): return self.c_strtol(p, end, base)

    def c_atoi(self, p):
        r = self.c_strtol(p, NULL, 10)
        return r & 0xFFFFFFFF if isinstance(r, int) else self.tidy(z3.Extract(31, 0, r))

    def c_atol(self, p): return self.c_strtol(p, NULL, 10)
    c_atoll = c_atol

    def c_sscanf(self, s, fmt, *args):
        f = bytes(self.cstr(fmt)).decode()
        i = k = n = 0
        args = list(args)
        end_seen = lambda: self._is(self._at(s, i), 0)
        import re
        for m in re.finditer(r"%(\*?)(\d*)(hh|h|ll|l|z|j)?([disucnx%])|(\s+)|(.)", f):
            star, width, mod, conv, ws, lit = m.groups()
            if ws:
                while self._is(self._at(s, i), 32, 9, 10, 11, 12, 13):
                    i += 1
                continue
            if lit or conv == "%":
                if not self._is(self._at(s, i), ord(lit or "%")):
                    return n
                i += 1
                continue
            if conv == "n":
                self.store(args[k], i, 4)
                k += 1
                continue
            if conv in "diu":
                if conv == "i":
                    raise Unsupported("%i")
                j = i
                while self._is(self._at(s, j), 32, 9, 10, 11, 12, 13):
                    j += 1
                if self._is(self._at(s, j), 0):
                    return n if n else -1
                v, i2 = self.number(s, j, int(width) if width else 10 ** 9)
                if v is None:
                    return n
                i = i2
                if star:
                    continue
                v = self.clipped(v, -(1 << 63), (1 << 63) - 1) if conv == "d" else v
                size = {"hh": 1, "h": 2, "l": 8, "ll": 8, "z": 8, "j": 8, None: 4}[mod]
                self.store(args[k], from_sym(v, 8 * size), size)
            elif conv == "s":
                while self._is(self._at(s, i), 32, 9, 10, 11, 12, 13):
                    i += 1
                if self._is(self._at(s, i), 0):
                    return n if n else -1
                out = []
                while not self._is(self._at(s, i), 0, 32, 9, 10, 11, 12, 13) and (not width or len(out) < int(width)):
                    out.append(self._at(s, i))
                    i += 1
                if any(isinstance(c, NumTok) for c in out):
                    raise Unsupported("characters of a symbolic number")
                if star:
                    continue
                self.put_bytes(args[k], out + [0])
            elif conv == "c":
                w = int(width or 1)
                out = []
                for _ in range(w):
                    if self._is(self._at(s, i), 0):
                        return n if n else -1
                    out.append(self._at(s, i))
                    i += 1
                if star:
                    continue
                self.put_bytes(args[k], out)
            else:
                raise Unsupported("sscanf conversion")
            k += 1
            n += 1
        return n

    # ----------------------------------------------------------- system calls
    def c_open(self, path, flags, *mode):
        name = self.cstr(path)
        if not all(isinstance(c, int) for c in name):
            raise Unsupported("symbolic file name")
        r = self.io.open(bytes(name), self.conc(flags, 32), self.conc(mode[0], 32) if mode else 0)
        if r < 0:
            self.set_errno(2)
        return r

    def c_close(self, fd): return self.io.close(self.conc(fd, 32))
    def c_fcntl(self, fd, cmd, *a): return self.io.fcntl(self.conc(fd, 32), self.conc(cmd, 32), *[self.conc(x, 32) for x in a])

    def c_read(self, fd, buf, n):
        n = self.conc(n, 64, False)
        r = self.io.read(self.conc(fd, 32), n)
        if isinstance(r, int):
            self.set_errno(-r)
            return -1
        if buf is UNDEF:
            raise UB("read into an uninitialised pointer")
        if n > (1 << 62):
            raise UB("read with a negative size")
        self.put_bytes(buf, [from_sym(b, 8) for b in r])
        if n and len(r) < n:
            self.cell(buf, min(n, 1 << 40), "read() target")      # the whole buffer must be there
        return len(r)

    def c_write(self, fd, buf, n):
        n = self.conc(n, 64, False)
        if n > (1 << 62):
            raise UB("write with a negative size")
        bs = self.bytes_at(buf, n) if n else []
        fd = self.conc(fd, 32)
        if fd != 2 and any(b is UNDEF for b in bs):
            raise UB("write of uninitialised bytes")
        r = self.io.write(fd, [to_sym(b, 8) for b in bs] if fd != 2 else bs)
        if r < 0:
            self.set_errno(-r)
            return -1
        return r

    def c_select(self, nfds, rp, wp, ep, tv):
        n = self.conc(nfds, 32)

        def bits(p):
            if p.o is None:
                return None
            if p.off < 0 or p.off + (n + 7) // 8 > p.o.size:
                raise UB("select on a set that is too small")
            s = set()
            for i, b in enumerate(self.bytes_at(p, 8)):
                if b is UNDEF:
                    raise UB("select on an uninitialised set")
                b = self.conc(b, 8, False)
                s |= {8 * i + j for j in range(8) if b >> j & 1}
            return {x for x in s if x < n}

        def setbits(p, s):
            if p.o is None:
                return
            bs = [0] * 8
            for x in s:
                bs[x // 8] |= 1 << (x % 8)
            self.put_bytes(p, bs)
        rs, ws, es = bits(rp), bits(wp), bits(ep)
        if tv.o is not None and any(x is UNDEF for x in self.bytes_at(tv, 16)):
            raise UB("select with an uninitialised timeout")
        r = self.io.select(rs or set(), tv.o is not None)
        if isinstance(r, int):
            self.set_errno(-r)
            return -1
        ready = r
        setbits(rp, ready)
        setbits(wp, ws or set())
        setbits(ep, set())
        return len(ready) + len(ws or ())

    def c_poll(self, fds, n, timeout):
        n = self.conc(n, 64, False)
        want = {}
        for i in range(n):
            fd = self.conc(self.load(Ptr(fds.o, fds.off + 8 * i), 4), 32)
            ev = self.conc(self.load(Ptr(fds.o, fds.off + 8 * i + 4), 2), 16)
            want[i] = (fd, ev)
        r = self.io.select({fd for fd, ev in want.values() if fd >= 0 and ev & 1}, self.conc(timeout, 32) >= 0)
        if isinstance(r, int):
            self.set_errno(-r)
            return -1
        c = 0
        for i, (fd, ev) in want.items():
            rev = (1 if fd in r and ev & 1 else 0) | (ev & 4)
            self.store(Ptr(fds.o, fds.off + 8 * i + 6), rev, 2)
            c += rev != 0
        return c


class IO:
    """The outside world of freqcd: what arrives when, and which calls fail.

    rounds: one dict per wait (select); keys
      i  bytes arriving on the input | "e" read error
      q  bytes arriving on the frequency stream | "e" read error | "c" closed
      s  "e": the wait itself fails
    After the last round the input is at its end.
    wfault: (bytes accepted before, "short" | "err") | None
    mfault: number of successful allocations before one fails | None"""

    def __init__(self, rounds, inp, freq=(), files=None, wfault=None, mfault=None):
        self.rounds, self.inp, self.freq = list(rounds), list(inp), list(freq)
        self.names = dict(files or {})
        self.wfault, self.mfault = wfault, mfault
        self.fds = {0: "tty", 1: "out", 2: "err"}
        if "in" not in self.names.values():
            self.fds[0] = "in"
        self.nonblock = set()
        self.k = 0
        self.av = {"in": 0, "fq": 0}
        self.flag = {"in": None, "fq": None}
        self.pos = {"in": 0, "fq": 0}
        self.out = []
        self.log = []
        self.over = False
        self.late = 0

    def advance(self):
        if self.k < len(self.rounds):
            r = self.rounds[self.k]
            self.k += 1
            for s, key in (("in", "i"), ("fq", "q")):
                v = r.get(key)
                if v in ("e", "c"):
                    self.flag[s] = v
                elif v:
                    self.av[s] += v
            return r
        self.k += 1
        self.flag["in"] = self.flag["in"] or "c"
        return {}

    def ready(self, kind):
        return kind in self.av and (self.av[kind] > 0 or self.flag[kind] is not None)

    def select(self, fds, timed):
        while True:
            r = self.advance()
            self.log.append(("wait",))
            if self.k > len(self.rounds) + 60:
                raise Hang()
            if r.get("s") == "e":
                return -4
            s = {fd for fd in fds if self.ready(self.fds.get(fd))}
            if s or timed:
                return s

    def read(self, fd, n):
        kind = self.fds.get(fd)
        if kind not in self.av:
            self.log.append(("read", str(kind), -1))
            return -9
        if n == 0:
            return []
        while not self.ready(kind):
            if fd in self.nonblock:
                self.log.append(("read", kind, -1))
                return -11
            if self.k > len(self.rounds) + 60:
                raise Hang()
            self.advance()
        if self.av[kind]:
            m = min(n, self.av[kind])
            self.av[kind] -= m
            src = self.inp if kind == "in" else self.freq
            p = self.pos[kind]
            self.pos[kind] += m
            self.log.append(("read", kind, m))
            return src[p:p + m]
        self.late += 1
        if self.late > 200:
            raise Hang()
        self.log.append(("read", kind, -1 if self.flag[kind] == "e" else 0))
        return -5 if self.flag[kind] == "e" else []

    def write(self, fd, bs):
        kind = self.fds.get(fd)
        if kind == "err":
            return len(bs)
        if kind != "out":
            return -9
        n = len(bs)
        if n == 0:
            return 0
        if self.wfault is not None:
            limit, how = self.wfault
            if len(self.out) + n > limit:
                m = limit - len(self.out)
                if how == "short" and m > 0 and not self.over:
                    self.over = True
                    self.out += bs[:m]
                    self.log.append(("write", n, m))
                    return m
                self.over = True
                self.log.append(("write", n, -1))
                return -32
        self.out += bs
        self.log.append(("write", n, n))
        return n

    def open(self, name, flags, mode):
        kind = self.names.get(name.decode("latin-1"))
        if kind is None or kind == "deny":
            self.log.append(("open", name.decode("latin-1"), flags, -1))
            return -1
        fd = 3
        while fd in self.fds:
            fd += 1
        self.fds[fd] = kind
        if kind == "out":
            self.fds[1] = "tty"
        if flags & 0o4000:
            self.nonblock.add(fd)
        self.log.append(("open", name.decode("latin-1"), flags, fd))
        return fd

    def close(self, fd):
        if fd not in self.fds:
            return -1
        del self.fds[fd]
        return 0

    def fcntl(self, fd, cmd, *a):
        if cmd == 3:
            return 0o4000 if fd in self.nonblock else 0
        if cmd == 4:
            (self.nonblock.add if a[0] & 0o4000 else self.nonblock.discard)(fd)
        return 0

    def malloc_fails(self):
        if self.mfault is None:
            return False
        self.mfault -= 1
        return self.mfault < 0

    def stdout_text(self):
        self.log.append(("text",))
