"""Explores a harness symbolically over the project's own code, decides its
assertions with the solver, and replays every counterexample (and a witness of
every path) on the real modules with the real numpy and real files.

A harness body is written once and runs in both worlds:

    def body(env):
        t = env.bits("t", 54)                     # symbolic | value of a model
        pt = env.mod("fpfind.lib.parse_timestamps")
        ...
        env.check("label", cond)                  # the property
        env.observe("label", value)               # compared symbolic vs. real
"""
import importlib
import io
import logging
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np

from . import loader, sym, symio, symnp
from .sym import (Engine, Flt, Hang, PathAbort, Real, RealInt, SymBool, SymInt, Unsupported,
                  as_z3bool, eval_any, set_engine, to_flt, z3)


class Skip(BaseException):
    """Concrete inputs do not satisfy the harness assumptions."""


class Harness:
    def __init__(self, name, body, params=None, max_paths=3000, budget=None, path_timeout=60,
                 replay_timeout=30, bounds="", solver_ms=60000, witness="all", prepare=None,
                 degrade=6, tolerance=False, products=False):
        self.name, self.body, self.params = name, body, params or {}
        self.max_paths, self.budget = max_paths, budget
        self.path_timeout, self.replay_timeout = path_timeout, replay_timeout
        self.bounds, self.solver_ms = bounds, solver_ms
        self.witness = witness
        self.prepare = prepare
        self.degrade = degrade
        self.tolerance = tolerance
        self.products = products


# ------------------------------------------------------------------ conditions
def AND(*cs):
    r = True
    for c in cs:
        if isinstance(c, (list, tuple)):
            c = AND(*c)
        c = norm_cond(c)
        if c is True:
            continue
        if c is False:
            return False
        r = c if r is True else sym.band(r, c)
    return r


def OR(*cs):
    r = False
    for c in cs:
        if isinstance(c, (list, tuple)):
            c = OR(*c)
        c = norm_cond(c)
        if c is False:
            continue
        if c is True:
            return True
        r = c if r is False else sym.bor(r, c)
    return r


def NOT(c):
    return sym.sym_not(norm_cond(c))


def IMPL(a, b): return OR(NOT(a), b)
def IFF(a, b):
    a, b = norm_cond(a), norm_cond(b)
    return OR(AND(a, b), AND(NOT(a), NOT(b)))


def norm_cond(c):
    if isinstance(c, (bool, SymBool)):
        return c
    if isinstance(c, np.bool_):
        return bool(c)
    if isinstance(c, symnp.NpScalar):
        return norm_cond(c.v)
    if isinstance(c, symnp.SymArray):
        return norm_cond(c.a.item())
    if z3.is_expr(c):
        return sym.mkbool(c)
    if c is NotImplemented:
        return False
    return bool(c)


LOOSE = z3.Bool("loose!")


def tolerant(exact, loose):
    """A condition that is proved in its exact form; counterexamples are also
    sought that break the loose form, so as to survive rounding in the replay."""
    if exact is True or isinstance(exact, bool) and isinstance(loose, bool):
        return exact
    return sym.mkbool(z3.If(LOOSE, as_z3bool(loose), as_z3bool(exact)))


def settle(c, loose):
    return z3.simplify(z3.substitute(c, (LOOSE, z3.BoolVal(loose))))


def ITE(c, a, b):
    c = norm_cond(c)
    if isinstance(c, bool):
        return a if c else b
    return sym.ite(c, a, b)


def raw(x):
    """Uniform value: int | bool | SymInt | SymBool | Flt | Real | str."""
    if isinstance(x, symnp.NpScalar):
        return raw(x.v)
    if isinstance(x, (bool, int, SymInt, SymBool, Flt, Real, str)) or x is None:
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, float):
        return to_flt(x) if x == x and abs(x) != float("inf") else x
    if isinstance(x, np.floating):
        return to_flt(x)
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (symnp.SymArray, np.ndarray)) and x.size == 1:
        return raw(x.a.item() if isinstance(x, symnp.SymArray) else x.item() if x.dtype != np.longdouble else x.ravel()[0])
    raise Unsupported(f"raw of {type(x)}")


def vals(arr):
    """Elements of an array (or list) as uniform raw values."""
    if isinstance(arr, symnp.SymArray):
        return [raw(v) for v in arr.a.ravel().tolist()]
    if isinstance(arr, np.ndarray):
        return [raw(v) for v in arr.ravel()] if arr.dtype != object else [raw(v) for v in arr.ravel().tolist()]
    return [raw(v) for v in arr]


def same_list(xs, ys):
    xs, ys = list(xs), list(ys)
    if len(xs) != len(ys):
        return False
    return AND(*[EQ(a, b) for a, b in zip(xs, ys)])


def EQ(a, b):
    a, b = raw(a), raw(b)
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    if isinstance(a, Fraction) or isinstance(b, Fraction):
        return norm_cond(to_flt(a) == to_flt(b)) if not (isinstance(a, Fraction) and isinstance(b, Fraction)) else a == b
    return norm_cond(a == b)


def scaled(x, k):
    """x * 2**k exactly, as a float value."""
    return Flt(x, k)


def dtype_of(arr):
    return np.dtype(arr.dtype)


def abs_le(x, bound):
    return AND(x <= bound, -x <= bound)


# --------------------------------------------------------------- environments
class Outcome:
    def __init__(self, value=None, exc=None, out="", data=b"", err=""):
        self.value, self.exc, self.out, self.data, self.err = value, exc, out, data, err

    def is_exc(self, *types):
        return self.exc is not None and (not types or isinstance(self.exc, types))


class BaseEnv:
    def __init__(self, h, params):
        self.h = h
        self.p = params
        self.checks = []
        self.obs = []
        self.reached = []

    def check(self, label, cond):
        self.checks.append((label, norm_cond(cond)))

    def observe(self, label, value):
        self.obs.append((label, value))

    def reach(self, label):
        self.reached.append(label)

    def call(self, f, *a, expect=(Exception,), **k):
        """Calls f; expected exceptions are returned, not raised."""
        try:
            return Outcome(f(*a, **k))
        except expect as e:
            return Outcome(exc=e)

    def main(self, mod, argv, stdin=b"", expect=(SystemExit,), stdin_lines=None):
        old = sys.argv, sys.stdin, sys.stdout, sys.stderr
        out, inp, err = self._streams(stdin, stdin_lines)
        sys.argv, sys.stdin, sys.stdout, sys.stderr = list(argv), inp, out, err
        exc = None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                value = mod.main()
        except expect as e:
            exc, value = e, None
        finally:
            sys.argv, sys.stdin, sys.stdout, sys.stderr = old
        text, data = self._collect(out)
        return Outcome(value, exc, text, data, err)


class SymEnv(BaseEnv):
    sym = True

    def __init__(self, h, engine, world):
        super().__init__(h, h.params)
        self.E = engine
        self.W = world

    # inputs
    def bits(self, name, n): return self.E.new_bits(name, n)
    def int(self, name, lo, hi): return self.E.new_int(name, lo, hi)
    def integer(self, name, lo, hi, rounding=True):
        """An integer in z3's integer sort; floats computed from it are reals
        with the error of correct rounding (if asked for)."""
        self.E.rounding = rounding
        return self.E.new_integer(name, lo, hi)

    def same_text(self, a, b): return len(a) == len(b) and symio.same_text(a, b)
    def bool(self, name): return self.E.new_bool(name)
    def real(self, name, lo=None, hi=None): return self.E.new_real(name, lo, hi)

    def pick(self, name, options):
        """Nondeterministic choice by forking (concrete afterwards)."""
        i = self.E.new_int(name, 0, len(options) - 1)
        return options[self.E.concretize(i)]

    def assume(self, cond):
        cond = norm_cond(cond)
        if cond is True:
            return
        if cond is False:
            raise PathAbort("assumption")
        self.E.assume_checked(cond)

    def mod(self, name): return self.W.load(name)

    @property
    def np(self): return self.W.np

    def array(self, values, dtype): return symnp.from_any(list(values), dtype)
    def scalar(self, value, dtype): return symnp.NpScalar(value, np.dtype(dtype))

    # files
    def path(self, name): return name

    def write(self, name, data):
        symio.vfs().add(name, list(data) if not isinstance(data, str) else data)
        return name

    def mkdir(self, name):
        symio.vfs().dirs.add(symio.vfs().norm(name))
        return name

    def exists(self, name): return symio.vfs().lookup(name) is not None

    def read(self, name):
        k = symio.vfs().lookup(name)
        if k is None:
            return None
        c = symio.vfs().files[k]
        return symio.text_bytes(c) if isinstance(c, str) else list(c)

    def text(self, name):
        k = symio.vfs().lookup(name)
        c = symio.vfs().files[k]
        return c if isinstance(c, str) else bytes(sym.engine().concretize(b) for b in c).decode()

    def listing(self, d=""): return sorted(symio.vfs().children(d))

    # text with symbolic numbers
    def dec(self, v): return v if isinstance(v, str) else (sym.engine().token("str", v) if sym.is_sym(v) else str(v))
    def number(self, s, kind="i", base=10): return symio.parse_number(s, kind, base)

    def _streams(self, stdin, lines):
        return symio.StdoutCapture(), symio.StdinStub(stdin, [x + "\n" for x in lines] if lines else ()), io.StringIO()

    def _collect(self, out): return out.text(), out.data()

    def patch(self, mod, name, value):
        old = getattr(mod, name)
        setattr(mod, name, value)
        self._undo.append((mod, name, old))

    _undo = ()

    def real_value(self, x):
        return x


class ConcEnv(BaseEnv):
    sym = False

    def __init__(self, h, values, scratch):
        super().__init__(h, h.params)
        self.values = values
        self.dir = scratch
        self.used = set()

    def _get(self, name, default):
        base, k = name, 1
        while name in self.used:
            k += 1
            name = f"{base}#{k}"
        self.used.add(name)
        return self.values.get(name, default)

    def bits(self, name, n): return int(self._get(name, 0))
    def int(self, name, lo, hi): return int(self._get(name, lo))
    def integer(self, name, lo, hi, rounding=True): return int(self._get(name, lo))
    def same_text(self, a, b): return a == b
    def bool(self, name): return bool(self._get(name, False))

    def real(self, name, lo=None, hi=None):
        return Fraction(self._get(name, lo if lo is not None else 0))

    def pick(self, name, options): return options[int(self._get(name, 0))]

    def assume(self, cond):
        if not norm_cond(cond):
            raise Skip()

    def mod(self, name): return loader.real_module(name)

    @property
    def np(self): return np

    def array(self, values, dtype):
        values = list(values)
        dt = np.dtype(dtype)
        if dt.kind == "f":
            return np.array([self.real_value(v, dt) for v in values], dtype=dt)
        return np.array(values, dtype=dt)

    def scalar(self, value, dtype):
        return np.dtype(dtype).type(self.real_value(value, np.dtype(dtype)))

    def real_value(self, v, dt=None):
        dt = dt or np.dtype(float)
        if isinstance(v, Flt):
            return symnp.flt_to_np(v, dt)
        if isinstance(v, Fraction):
            return symnp.flt_to_np(sym.f_div(to_flt(v.numerator), v.denominator, symnp.prec(dt)), dt) if v.denominator & (v.denominator - 1) else symnp.flt_to_np(to_flt(v), dt)
        return v

    def path(self, name): return os.path.join(self.dir, name)

    def write(self, name, data):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data.encode() if isinstance(data, str) else bytes(data))
        return p

    def mkdir(self, name):
        os.makedirs(self.path(name), exist_ok=True)
        return self.path(name)

    def exists(self, name): return os.path.exists(self.path(name))

    def read(self, name):
        try:
            with open(self.path(name), "rb") as f:
                return list(f.read())
        except FileNotFoundError:
            return None

    def text(self, name):
        with open(self.path(name)) as f:
            return f.read()

    def listing(self, d=""): return sorted(os.listdir(self.path(d)))

    def dec(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, (Fraction, Flt)):
            return repr(float(self.real_value(v)))
        return str(v)

    def number(self, s, kind="i", base=10):
        return raw(float(s)) if kind == "f" else int(s, base)

    def _streams(self, stdin, lines):
        data = bytes(stdin) if not lines else "".join(x + "\n" for x in lines).encode()
        return (io.TextIOWrapper(io.BytesIO(), write_through=True),
                io.TextIOWrapper(io.BytesIO(data)), io.StringIO())

    def _collect(self, out):
        out.flush()
        b = out.buffer.getvalue()
        return b.decode(errors="replace"), list(b)

    def patch(self, mod, name, value):
        self._undo.append((mod, name, getattr(mod, name)))
        setattr(mod, name, value)

    _undo = ()


# ------------------------------------------------------------------- running
class _Alarm:
    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        def h(*a):
            raise Hang()
        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def undo(env):
    for m, n, v in reversed(env._undo):
        setattr(m, n, v)


def concrete_run(h, values):
    """Runs the harness on the real modules. Returns (failed labels, obs, skipped, note)."""
    scratch = tempfile.mkdtemp(prefix="fpv")
    cwd = os.getcwd()
    env = ConcEnv(h, values, scratch)
    env._undo = []
    note = ""
    try:
        os.chdir(scratch)
        with _Alarm(h.replay_timeout), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            h.body(env)
    except Skip:
        return [], [], True, "skip"
    except Hang:
        env.checks.append((f"terminates (no answer in {h.replay_timeout} s)", False))
        note = "hang"
    except Unsupported as e:
        return [], [], True, f"unsupported in replay: {e}"
    except (Exception, SystemExit) as e:
        note = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])
        env.checks.append((f"no exception (got {type(e).__name__}: {e})", False))
    finally:
        undo(env)
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    failed = [l for l, c in env.checks if c is not True]
    return failed, env.obs, False, note


def model_values(E, m):
    return {n: eval_any(m, v) for n, v in E.inputs.items()}


def diverse(E, k, rng):
    """Up to k models of the current path condition with spread-out inputs."""
    out = []
    names = list(E.inputs)
    for i in range(k):
        E.solver.push()
        try:
            rng.shuffle(names)
            for n in names[:24]:
                v = E.inputs[n]
                if isinstance(v, SymInt):
                    span = v.hi - v.lo
                    c = rng.choice([v.lo, v.hi, v.lo + rng.randrange(span + 1),
                                    v.lo + rng.randrange(span + 1), v.lo + rng.randrange(min(span, 300) + 1),
                                    v.hi - rng.randrange(min(span, 300) + 1)])
                    cond = v.e == z3.BitVecVal(c, v.e.size())
                elif isinstance(v, SymBool):
                    cond = v.e == rng.choice([True, False])
                elif isinstance(v, Real) and not isinstance(v, Flt) and None not in E.real_range.get(n, (None,)):
                    lo, hi = (Fraction(x) for x in E.real_range[n])
                    k = rng.choice([Fraction(rng.randrange(257), 256), Fraction(rng.randrange(1 << 12), 1 << 22)])
                    c = lo + (hi - lo) * k if k.denominator <= 256 else k * min(hi - lo, 1 << 20) + max(lo, Fraction(0))
                    cond = v.r == z3.RealVal(str(c))
                else:
                    continue
                if E.check(cond) == z3.sat:
                    E.solver.add(cond)
            if E.check() != z3.sat:
                break
            out.append(model_values(E, E.model))
        except Unsupported:
            break
        finally:
            E.solver.pop()
            E.model = None
    return out


class Result:
    def __init__(self, name):
        self.name = name
        self.paths = self.complete_paths = self.replayed = self.inconclusive = 0
        self.conds = self.conds_solver = 0
        self.proved_paths = 0
        self.disagreements = 0
        self.stats = {}
        self.violations = []
        self.notes = []
        self.samples = []
        self.functions = set()
        self.reached = set()
        self.exhausted = True
        self.wall = 0.0
        self.bounds = ""
        self.labels = set()


def note(res, s):
    if len(res.notes) < 12:
        res.notes.append(s)


def jsonable(v):
    if isinstance(v, Fraction):
        return str(v) if v.denominator != 1 else int(v)
    return v


def run_harness(h, tier="quick", seed=1, budget=None):
    t0 = time.time()
    res = Result(h.name)
    res.bounds = h.bounds
    rng = random.Random(f"{seed}/{h.name}")
    budget = h.budget or budget or 120
    E = Engine(solver_timeout_ms=h.solver_ms)
    E.deadline = t0 + budget
    set_engine(E)
    logging.disable(logging.CRITICAL)
    world = None
    try:
        world = loader.SymWorld()
        if h.prepare:
            h.prepare(world)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        note(res, f"symbolic loading failed: {type(e).__name__}: {e}")
    todo = [[]]
    src = loader.SRC

    def concretely(values, why):
        failed, obs, skipped, nt = concrete_run(h, values)
        if not skipped:
            res.replayed += 1
        if failed:
            res.violations.append(dict(harness=h.name, failed=failed[:6], why=why,
                                       inputs={k: jsonable(v) for k, v in values.items()}, note=nt))
        return failed, obs, skipped

    while todo:
        if res.paths >= h.max_paths or time.time() > t0 + budget or res.violations:
            if not res.violations:
                res.exhausted = False
                note(res, f"budget reached with {len(todo)} open branches")
            break
        prefix = todo.pop()
        E.reset_path(prefix)
        symio.set_vfs(symio.VFS())
        env = SymEnv(h, E, world)
        env._undo = []
        res.paths += 1
        status, why = "ok", ""
        prof = res.paths == 1
        seen = set()

        def profiler(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(src):
                seen.add(f"{os.path.relpath(frame.f_code.co_filename, src)}:{frame.f_code.co_name}")
        try:
            with _Alarm(h.path_timeout), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if prof:
                    sys.setprofile(profiler)
                if world is None:
                    raise Unsupported("not loaded")
                h.body(env)
        except PathAbort as e:
            status, why = "abort", str(e)
        except Unsupported as e:
            status, why = "unsupported", str(e)
        except Hang:
            status, why = "hang", "path time limit"
        except (Exception, SystemExit) as e:
            status, why = "exc", f"{type(e).__name__}: {e}"
            res_tb = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-3:])
            env.checks.append((f"no exception (got {why})", False))
            if os.environ.get("VERIF_DEBUG"):
                print(res_tb, file=sys.stderr)
        finally:
            sys.setprofile(None)
            undo(env)
        res.functions |= seen | getattr(env, "cfuncs", set())
        todo += E.pending
        if status == "abort":
            continue
        if status in ("unsupported", "hang"):
            res.inconclusive += 1
            note(res, f"{status}: {why}")
            if os.environ.get("VERIF_DEBUG"):
                print(h.name, status, why, file=sys.stderr)
            try:
                for v in diverse(E, h.degrade, rng) or [{}]:
                    if concretely(v, f"witness of a path the engine left ({status}: {why})")[0]:
                        break
            except Unsupported:
                pass
            continue
        res.complete_paths += 1
        res.reached |= set(env.reached)
        # ---- decide
        open_conds = [(l, c) for l, c in env.checks if c is not True]
        res.conds += len(env.checks)
        res.labels |= {l for l, _ in env.checks}
        refuted = None
        decided = True
        try:
            if open_conds:
                res.conds_solver += len(open_conds)
                forms = [z3.Not(as_z3bool(c)) for _, c in open_conds]
                neg = [settle(f, False) for f in forms] if h.tolerance else forms
                left, model = E.abstract_open(neg) if h.products else (None, None)
                if left is not None:
                    neg = [neg[i] for i in left]
                    if model is not None:
                        # may be spurious: the real program decides first
                        if concretely(model_values(E, model), "candidate of the solver with products abstracted")[0]:
                            continue
                r = z3.unsat if not neg else E.check(z3.Or(*neg) if len(neg) > 1 else neg[0])
                if r == z3.unknown:
                    r = z3.unsat
                    for n in neg:
                        rr = E.check(n)
                        if rr == z3.sat:
                            r = rr
                            break
                        if rr == z3.unknown:
                            decided = False
                if r == z3.sat:
                    refuted = E.model
        except Unsupported as e:
            decided = False
            why = str(e)
        if refuted is not None:
            bad = [l for (l, c), n in zip(open_conds, forms) if not z3.is_false(refuted.eval(settle(n, False), model_completion=True))]
            values = model_values(E, refuted)
            failed, obs, skipped = concretely(values, "solver counterexample: " + "; ".join(bad[:4]))
            if not failed and h.tolerance:
                try:
                    if E.check(z3.Or(*[settle(f, True) for f in forms])) == z3.sat:
                        values = model_values(E, E.model)
                        failed, obs, skipped = concretely(values, "solver counterexample beyond rounding: " + "; ".join(bad[:4]))
                except Unsupported:
                    pass
            if not failed:
                res.inconclusive += 1
                res.disagreements += 1
                note(res, f"counterexample not reproduced ({bad[:3]}, {status} {why}) inputs "
                          f"{ {k: jsonable(v) for k, v in list(values.items())[:8]} }")
                E.model = None
                try:
                    for v in diverse(E, h.degrade, rng):
                        if concretely(v, "witness of a path with an unreproduced counterexample")[0]:
                            break
                except Unsupported:
                    pass
            continue
        if not decided:
            res.inconclusive += 1
            note(res, f"solver gave no verdict {why}")
            try:
                for v in diverse(E, h.degrade, rng):
                    if concretely(v, "witness of an undecided path")[0]:
                        break
            except Unsupported:
                pass
            continue
        res.proved_paths += 1
        # ---- witness replay (translation validation)
        want = h.witness == "all" or (h.witness == "first" and res.replayed == 0) or \
            (isinstance(h.witness, int) and res.replayed < h.witness)
        if want:
            try:
                if E.model is None and E.check() != z3.sat:
                    continue
                m = E.model
                values = model_values(E, m)
                failed, obs, skipped = concretely(values, "witness replay")
                if len(res.samples) < 2:
                    res.samples.append({"harness": h.name, "inputs": {k: jsonable(v) for k, v in list(values.items())[:12]},
                                        "assertions": [l for l, _ in env.checks][:6]})
                if not failed and not skipped:
                    bad = compare_obs(m, env.obs, obs, h.tolerance)
                    if bad:
                        res.disagreements += 1
                        note(res, f"engine and real run differ: {bad}")
                elif skipped:
                    note(res, f"witness skipped in replay: {failed}")
                    res.disagreements += 1
            except Unsupported as e:
                note(res, f"witness: {e}")
    res.stats = dict(E.stats)
    res.wall = time.time() - t0
    return res


def plain(m, x):
    """Comparable concrete form of an observed value."""
    if m is not None:
        if isinstance(x, symnp.SymArray):
            return [plain(m, v) for v in x.a.ravel().tolist()] + [str(x.dtype)]
        if isinstance(x, symnp.NpScalar):
            return plain(m, x.v)
        if isinstance(x, (SymInt, SymBool, Flt, Real)):
            return plain(None, eval_any(m, x))
        if isinstance(x, str) and symio.has_token(x):
            return "<text>"
    if isinstance(x, (list, tuple)):
        return [plain(m, v) for v in x]
    if isinstance(x, np.ndarray):
        return [plain(None, v) for v in (x.ravel().tolist() if x.dtype == object else x.ravel())] + [str(x.dtype)]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        f = to_flt(x)
        return plain(None, f)
    if isinstance(x, Flt):
        if x.kind:
            return x.kind
        f = Fraction(x.m) * Fraction(2) ** x.e
        return int(f) if f.denominator == 1 else f
    if isinstance(x, Fraction):
        return int(x) if x.denominator == 1 else x
    if isinstance(x, str):
        return x
    if x is None:
        return None
    if isinstance(x, symnp.SymArray):
        return [plain(None, v) for v in x.a.ravel().tolist()] + [str(x.dtype)]
    return str(type(x).__name__)


def close(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        d = abs(a - b)
        return d <= Fraction(1, 10 ** 9) * (1 + max(abs(a), abs(b)))
    return a == b


def compare_obs(m, sobs, cobs, tolerance):
    for (l1, v1), (l2, v2) in zip(sobs, cobs):
        if l1 != l2:
            return f"{l1} vs {l2}"
        a, b = plain(m, v1), plain(None, v2)
        if a == "<text>":
            continue
        if a != b and not (tolerance and close(a, b)):
            return f"{l1}: {str(a)[:200]} vs {str(b)[:200]}"
    if len(sobs) != len(cobs):
        return "number of observations"
    return None
