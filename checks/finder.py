"""F01-F07: refinement loop, precompensation scan, output and input of fpfind."""
import inspect
from fractions import Fraction

import numpy as np

from vlib import report
from vlib.harness import (AND, EQ, IFF, IMPL, ITE, NOT, OR, Harness, norm_cond, raw, same_list,
                          scaled, tolerant, vals)
from vlib.sym import Flt, Real, to_flt, to_real, z3

FP = "fpfind.fpfind"
UT = "fpfind.lib.utils"
LIMIT = Fraction(1, 1 << 13)                                  # on |df|
MAXDELAY = 10 ** 8                                            # ns


def exact(v):
    """Uniform exact number: Real in the solver, Fraction in replays."""
    v = raw(v)
    if isinstance(v, Flt):
        if not isinstance(v.m, int) or v.kind:
            return to_real(v)
        return Fraction(v.m) * Fraction(2) ** v.e
    return v


def same(env, a, b, scale=1):
    """a = b (exactly in the solver, up to float rounding in replays)."""
    a, b = exact(a), exact(b)
    if env.sym:
        return norm_cond(a == b)
    return abs(float(a) - float(b)) <= 1e-12 * (float(scale) + abs(float(b)))


def near(env, a, b, scale=1):
    """The same as an assertion (not for decisions of the harness)."""
    eq = same(env, a, b, scale)
    if not env.sym or isinstance(eq, bool):
        return eq
    d, t = to_real(exact(a)) - to_real(exact(b)), to_real(Fraction(scale)) / 10 ** 8
    return tolerant(eq, AND(d <= t, -d <= t))


def le(env, a, b):
    if env.sym:
        return norm_cond(a <= b)
    return float(a) <= float(b) + 1e-9 * (1 + abs(float(b)))


def stub_all(env, name, f):
    """Replaces a function in the main module and in the utilities."""
    for m in (FP, UT):
        mod = env.mod(m)
        if hasattr(mod, name):
            env.patch(mod, name, f)


# ------------------------------------------------------------------ F01, F02
class Token:
    """Stand-in for the transform of one binned series."""

    def __init__(self, series, bins, width):
        self.series, self.bins, self.width = [exact(x) for x in vals(series)], bins, width


class Stats:
    def __init__(self, s):
        self.significance = s


class Search:
    """Stand-ins for transform, correlation, peak position and statistics: the
    peak of every correlation is wherever the solver wants it."""

    def __init__(self, env, widths=None):
        self.env = env
        self.xs = []                                         # (a token, b token)
        self.delays = {}                                     # id -> [(length, delay)]
        self.axes = True                                     # time axes and merged bins as they should be
        self.merged = True
        self.sigs = {}
        for n, f in (("generate_fft", self.fft), ("get_xcorr", self.xcorr), ("get_timing_delay_fft", self.delay),
                     ("get_statistics", self.stats)):
            stub_all(env, n, f)

    def fft(self, arr, num_bins, time_res):
        return Token(arr, num_bins, time_res)

    def xcorr(self, afft, bfft, filter=None):
        self.xs.append((afft, bfft))
        ys = MARKS[:int(afft.bins)].copy()
        ys[0] = len(self.xs)                                 # survives the merging of bins
        return self.env.array([scaled(int(y), 0) for y in ys], "float64") if self.env.sym else ys

    def ident(self, hist):
        h = [int(exact(x)) for x in vals(hist)]
        i, n = h[0] % 64 - 1, len(h)
        if not 0 <= i < len(self.xs):
            self.merged = False
            return max(0, min(i, len(self.xs) - 1)), n
        bins = int(self.xs[i][0].bins)
        ys = MARKS[:bins].copy()
        ys[0] = i + 1
        if bins % n or h != [int(x) for x in ys.reshape(n, -1).sum(axis=1)]:
            self.merged = False
        return i, n

    def delay(self, hist, time_bins, *a, **k):
        i, n = self.ident(hist)
        t = self.xs[i][0]
        w = exact(t.width) * (int(t.bins) // n)
        axis = [exact(x) for x in vals(time_bins)]
        if len(axis) != n or not all(abs(x - j * w) <= w * Fraction(1, 10 ** 6) for j, x in enumerate(axis)):
            self.axes = False
        known = self.delays.setdefault(i, [])
        for m, d in known:
            if m == n:
                break
        else:
            if i // 2 in self.env.p.get("few", ()):
                if i % 2 == 0:
                    d = self.env.pick(f"pick{i}_{n}", (Fraction(0), Fraction(1, 2), Fraction(-3)))
                else:
                    d = last_delay(self, i - 1) + self.env.pick(f"pick{i}_{n}", (Fraction(0), Fraction(1, 64), Fraction(-1, 32)))
                d = to_real(d) if self.env.sym else d
            else:
                d = self.env.real(f"delay{i}_{n}", -self.env.p["reach"], self.env.p["reach"])
            known.append((n, d))
        # the larger candidate is the same position counted from the other end
        wrap = to_real(w * n) if self.env.sym else w * n
        return (self.env.real_value(d), self.env.real_value(ITE(d > 0, d - wrap, d + wrap)))

    def stats(self, hist, resolution=None, *a, **k):
        i, n = self.ident(hist)
        known = self.sigs.setdefault(i, [])
        for m, r, s in known:
            if m == n:
                return Stats(self.env.real_value(s))
        # a bin besides the peak is needed for a non-zero deviation
        s = self.env.real(f"sig{i}_{n}", 0, 100) if n > 2 and self.env.p.get("sigs") else Fraction(0 if n <= 2 else 50)
        s = to_real(s) if self.env.sym else s
        known.append((n, resolution, s))
        return Stats(self.env.real_value(s))


# contents of the bins besides the first, told apart in sums
MARKS = np.array([float(1 << min(6 * j, 48)) for j in range(64)])


def window(env, series, start, width):
    """Events of the window, shifted to its start."""
    out = []
    for t in series:
        if AND(start <= t, t < start + width) if not env.sym else bool(AND(start <= t, t < start + width)):
            out.append(t - start)
    return out


def same_series(env, xs, ys, scale):
    if len(xs) != len(ys):
        return False
    return AND(*[near(env, x, y, scale) for x, y in zip(xs, ys)])


def setup(env):
    p = env.p
    N, res, sep = p["bins"], p["res"], p["sep"]
    dur = N * res * p.get("wraps", 1)
    S = sep * dur
    # events well inside the two windows, the last one beyond them
    A = [Fraction(dur, 4), Fraction(dur, 2), S + Fraction(dur, 8), S + Fraction(3 * dur, 4), S + 3 * dur]
    B = [Fraction(dur, 3), Fraction(5 * dur, 8), S + Fraction(dur, 3), S + Fraction(dur, 2), S + 4 * dur]
    if p.get("end"):                                         # less data than asked for
        A = [Fraction(S, 4), Fraction(S, 2), S + Fraction(S, 16), p["end"] + Fraction(1, 4)]
        B = [Fraction(S, 3), S + Fraction(S, 8), p["end"]]
    if p.get("bare"):
        A, B = [A[0], A[2], A[4]], [B[4]]
    return N, res, dur, S, A, B


def floats(env, xs):
    if env.sym:
        return env.array([to_real(x) for x in xs], "float64")
    return np.array([float(env.real_value(Fraction(x))) for x in xs])


def run_search(env, sc):
    p = env.p
    N, res, dur, S, A, B = setup(env)
    fp = env.mod(FP)
    return env.call(fp.time_freq, floats(env, A), floats(env, B), num_wraps=p.get("wraps", 1), num_bins=N, resolution=res,
                    target_resolution=p["target"], threshold=p.get("threshold", 6), separation_duration=S, expect=(ValueError,))


def iterations(env, sc):
    """(early pair, late pair) of each iteration, by the window of the reference."""
    N, res, dur, S, A, B = setup(env)
    its = []
    for i, (a, b) in enumerate(sc.xs):
        late = len(a.series) > 0 and bool(same(env, a.series[0], A[2] - S))
        its.append((i, late, a, b))
    return its


def last_delay(sc, i):
    return sc.delays[i][-1][1]


def compose_body(env):
    p = env.p
    N, res, dur, S, A, B = setup(env)
    sc = Search(env)
    r = run_search(env, sc)
    env.check("delays sought on the time axis of the correlation", sc.axes)
    its = iterations(env, sc)
    pairs = list(zip(its[::2], its[1::2]))
    env.check("early and late correlation in turn", all(not e[1] and l[1] for e, l in pairs))
    dt, f = Fraction(0), Fraction(1)
    if env.sym:
        dt, f = to_real(dt), to_real(f)
    steps = [(dt, f)]
    series = [to_real(b) for b in B] if env.sym else [Fraction(b) for b in B]
    wants = [(dt, f)]
    for k, (e, l) in enumerate(pairs):
        w = e[2].width
        width = min(round(dur / (w * N)), min(A[-1], B[-1]) // (w * N)) * w * N
        for (i, late, a, b), start in ((e, 0), (l, S)):
            env.check(f"iteration {k}: {'late' if late else 'early'} window of the reference",
                      same_series(env, a.series, window(env, [to_real(x) if env.sym else Fraction(x) for x in A], start, width), dur))
            env.check(f"iteration {k}: {'late' if late else 'early'} window of the corrected target",
                      near_cut(env, b.series, series, start, width, S))
        if l[0] not in sc.delays:
            break                                            # gave up after the first window
        d1, d2 = last_delay(sc, e[0]), last_delay(sc, l[0])
        g1 = (d2 - d1) / S
        spurious = False
        if k:
            over = lambda c: OR(*[OR(x > c * m, -x > c * m) for x, m in (
                (d1, size(dt, 1)), (d2, size(dt, 1)), (g1, size(f - 1, Fraction(1, 10 ** 9))))])
            # not within rounding of the limit
            env.assume(OR(NOT(over(Fraction(10) - Fraction(1, 10 ** 6))), over(Fraction(10) + Fraction(1, 10 ** 6))))
            spurious = bool(over(10))
        if not spurious:
            dt, f = dt + f * d1, f * (1 + g1)
            if k + 1 < len(pairs):
                series = [(t - d1) / (1 + g1) for t in series]
        wants.append((dt, f))
    if r.exc is None:
        widths = [exact(e[2].width) for e, _ in pairs]
        env.check("bin width refined in every iteration", all(bool(y < x) for x, y in zip(widths, widths[1:])))
        env.check("search ends at the target resolution", spurious or len(pairs) == 1 and p["sep"] ** 2 < 2
                  or bool(same(env, exact(pairs[-1][1][2].width), p["target"], 1)))
        gdt, gdf = r.value
        gdt, gdf = exact(gdt), exact(gdf)
        env.check("time offset is the composition", near(env, gdt, dt, dur))
        env.check("frequency offset is the composition", near(env, gdf, f - 1, 1))
        env.reach("returned")
    else:
        env.reach("failed")


def size(x, least):
    x = ITE(x < 0, -x, x) if not isinstance(x, Fraction) else abs(x)
    return ITE(x > least, x, least) if not isinstance(x, Fraction) else max(x, Fraction(least))


def near_cut(env, got, series, start, width, S):
    if env.sym:
        return same_series(env, got, window(env, series, start, width), S)
    # in replays events within rounding of an edge may fall on either side
    sure = [t - start for t in series if start + 1e-6 < t < start + width - 1e-6]
    some = [t - start for t in series if start - 1e-6 < t < start + width + 1e-6]
    return len(sure) <= len(got) <= len(some) and all(any(abs(float(g) - float(x)) < 1e-5 for x in some) for g in got) \
        and all(any(abs(float(g) - float(x)) < 1e-5 for g in got) for x in sure)


def F01(tier):
    hs = []
    quick = tier == "quick"
    cases = [("one", 16, 16, 6, 60, ()), ("two", 4, 1, 6, 20, ()), ("three_a", 16, 1, 6, 60, (0, 1))]
    cases += [("touching", 16, 1, 1, 60, ()), ("near", 16, 1, Fraction(5, 4), 60, ())]
    if not quick:
        cases += [("two_wide", 4, 1, 6, 10 ** 6, ()), ("two_close", 4, 2, 3, 20, ()), ("three_b", 16, 1, 6, 60, (1,)), ("three_c", 16, 1, 6, 60, (0, 2)),
                  ("three_d", 16, 1, 6, 60, (0,))]
    for name, res, target, sep, reach, few in cases:
        hs.append(Harness(f"compose_{name}", compose_body, dict(bins=4, res=res, target=target, sep=sep, reach=reach, few=few), tolerance=True,
                          bounds=f"any early and late peak positions within {reach} ns, bins {res} -> {target} ns, separation {sep}"
                          + (f"; in iterations {few} only three positions each" if few else ""), witness=8))
    for wraps, end in ((3, 150), (3, 100), (5, 300)):
        hs.append(Harness(f"short_{wraps}_{end}", compose_body, dict(bins=4, res=16, target=16, sep=Fraction(1, 2), reach=60, wraps=wraps, end=Fraction(end)),
                          tolerance=True, witness=8, bounds=f"any early and late peak positions within 60 ns; {wraps} wraps of 64 ns asked for, data up to {end} ns"))
    return hs


# ------------------------------------------------------------------------ F02
def rails_body(env):
    p = env.p
    sc = Search(env)
    th = env.real("threshold", 0, 50)
    p = env.p = dict(p, threshold=env.real_value(th))
    r = run_search(env, sc)
    widths = [exact(t.width) for pair in sc.xs for t in pair]
    env.check("delays sought on the time axis of the correlation", sc.axes)
    env.check("adjacent bins merged", sc.merged)
    env.check("bin width never below the target", all(bool(le(env, p["target"], w)) for w in widths))
    if r.exc is not None:
        env.check("fails with a peak finding error", r.is_exc(env.mod("fpfind.lib.constants").PeakFindingFailed))
        env.reach("failed")
        return
    df = exact(r.value[1])
    env.check("frequency offset within limits", AND(df < LIMIT, -df < LIMIT) if env.sym else abs(float(df)) < float(LIMIT))
    n, d = sc.delays[0][-1]
    m, w, s = sc.sigs[0][-1]
    env.check("coarse peak above the threshold", AND(s >= th, NOT(s == 0)))
    env.check("significance is that of the accepted peak", n == m)
    env.check("first accepted peak is used", AND(*[x < th for _, _, x in sc.sigs[0][:-1]]))
    env.check("coarse resolution at most 10 us (or the initial one)", float(w) <= max(1e4, p["res"]))
    env.check("coarse delay at most 100 ms", AND(d <= MAXDELAY, -d <= MAXDELAY))
    env.reach("returned")


def F02(tier):
    hs = []
    quick = tier == "quick"
    cases = [("single", 8, 4096, 4096, 6), ("refined", 8, 4096, 2048, 6), ("finer", 16, 1024, 1024, 12), ("coarse", 4, 16384, 8192, 6)]
    if not quick:
        cases += [("close", 8, 4096, 2048, 2), ("deep", 32, 512, 512, 24), ("far", 8, 4096, 1024, 40), ("thrice", 16, 1024, 512, 6)]
    for name, N, res, target, sep in cases:
        hs.append(Harness(f"rails_{name}", rails_body, dict(bins=N, res=res, target=target, sep=sep, reach=3 * MAXDELAY, sigs=True, bare=True), tolerance=True,
                          bounds=f"any peak positions within 300 ms, significances and threshold; {N} bins of {res} ns merged and refined to {target} ns", witness=8))
    return hs


# ------------------------------------------------------------------------ F03
def scan_body(env):
    p = env.p
    fp = env.mod(FP)
    n = p["n"]
    pre = [env.real(f"pre{i}", Fraction(-1, 100), Fraction(1, 100)) for i in range(n)]
    dts = [env.real(f"dt{i}", -MAXDELAY, MAXDELAY) for i in range(n)]
    dfs = [env.real(f"df{i}", Fraction(-1, 8192), Fraction(1, 8192)) for i in range(n)]
    ok = [env.bool(f"found{i}") for i in range(n)]
    A = [Fraction(5), Fraction(1000)]
    B = [Fraction(3), Fraction(2000)]
    params = dict(num_wraps=2, num_bins=64, resolution=16, target_resolution=1, threshold=Fraction(13, 2), separation_duration=12288)
    failure = env.mod("fpfind.lib.constants").PeakFindingFailed
    sig = inspect.signature(inspect.unwrap(fp.time_freq))
    calls = []

    def search(*a, **k):
        b = sig.bind(*a, **k).arguments
        i = len(calls)
        calls.append(b)
        if i >= n:
            raise failure("too many attempts")
        if ok[i]:
            return env.real_value(dts[i]), env.real_value(dfs[i])
        raise failure("none", significance=1.0, resolution=16, dt1=3.0)

    env.patch(fp, "time_freq", search)
    r = env.call(fp.fpfind, floats(env, A), floats(env, B), precompensations=floats_any(env, pre), precompensation_fullscan=p["full"],
                 **{k: float(v) if isinstance(v, Fraction) else v for k, v in params.items()}, expect=(ValueError,))
    found = [bool(x) for x in ok[:len(calls)]]
    for i, c in enumerate(calls):
        env.check(f"attempt {i}: reference series", same_series(env, [exact(x) for x in vals(c["ats"])], [to_real(x) if env.sym else x for x in A], 1))
        env.check(f"attempt {i}: precompensated target", same_series(env, [exact(x) for x in vals(c["bts"])], [x / (1 + pre[i]) for x in B], 1))
        for k, v in params.items():
            env.check(f"attempt {i}: {k}", EQ(c[k], v if isinstance(v, int) else Flt(v.numerator, -1)))
    all_ok = [bool(x) for x in ok]
    want = n if p["full"] else (all_ok.index(True) + 1 if any(all_ok) else n)
    env.check("precompensations tried in order until one succeeds" if not p["full"] else "every precompensation tried", len(calls) == want)
    if not any(found):
        env.check("failure reported", r.is_exc(ValueError))
        return
    env.check("estimate returned", r.exc is None)
    if r.exc is None:
        dt, df = (exact(x) for x in r.value)
        env.check("estimate composes precompensation and correction", OR(*[
            AND(near(env, dt, (1 + pre[i]) * dts[i], MAXDELAY), near(env, df, (1 + pre[i]) * (1 + dfs[i]) - 1, 1))
            for i in range(len(calls)) if found[i]]))


def floats_any(env, xs):
    if env.sym:
        return env.array(xs, "float64")
    return np.array([float(env.real_value(Fraction(x))) for x in xs])


def F03(tier):
    hs = []
    quick = tier == "quick"
    for n in (1, 2, 3) if quick else (1, 2, 3, 4, 6):
        for full in (False, True):
            hs.append(Harness(f"scan_{n}_{'full' if full else 'first'}", scan_body, dict(n=n, full=full), tolerance=True, witness=10,
                              bounds=f"{n} arbitrary precompensations within 1%, any success pattern, any offsets found"))
    return hs


# ------------------------------------------------------------------------ F04
def list_body(env):
    p = env.p
    fp = env.mod(FP)
    e = p["exp"]
    step = env.int("step", 1, (1 << p["bits"]) - 1)
    start = env.int("start", -(1 << p["bits"]), 1 << p["bits"])
    stop = env.int("stop", 0, 1 << p["bits"])
    if p["ordered"]:
        env.assume(stop >= start)
        env.assume(stop - start < p["steps"] * step)
    else:
        env.assume(stop < p["steps"] * step)
    num = lambda v: env.real_value(scaled(v, -e)) if p["floats"] else v
    r = fp.generate_precompensations(num(start), num(stop), num(step), **(dict(ordered=True) if p["ordered"] else {}))
    got = vals(r)
    k = 0
    want = []
    n = len(got)
    ks = list(range(n)) if p["ordered"] else [0] + [s * i for i in range(1, n) for s in (1, -1)][:n - 1]
    env.check("starts with the start value", n >= 1)
    env.check("values", same_list(got, [scaled(start + i * step, -e) if p["floats"] else start + i * step for i in ks]))
    if p["ordered"]:
        env.check("up to the stop value", AND(start + (n - 1) * step <= stop, start + n * step > stop))
    else:
        env.check("as many on both sides", n % 2 == 1)
        m = n // 2
        env.check("within the range and complete", AND(m * step <= stop, (m + 1) * step > stop))
    env.observe("list", got)


def zero_step_body(env):
    fp = env.mod(FP)
    start, stop = env.int("start", -100, 100), env.int("stop", -100, 100)
    for z in (0, 0.0):
        for kw in ({}, dict(ordered=True)):
            r = fp.generate_precompensations(start, stop, z, **kw)
            env.check("single zero", same_list(vals(r), [0]))


def F04(tier):
    hs = []
    quick = tier == "quick"
    for ordered in (False, True):
        for fl, bits, e in ((True, 10, 30), (False, 8, 0)) if quick else ((True, 16, 40), (True, 24, 34), (False, 16, 0)):
            for steps in (4,) if quick else (4, 9):
                hs.append(Harness(f"list_{'ordered' if ordered else 'alternating'}_{'f' if fl else 'i'}{bits}_{steps}", list_body,
                                  dict(ordered=ordered, floats=fl, bits=bits, exp=e, steps=steps), witness=10,
                                  bounds=f"any start, stop and step of {bits} bits" + (f" in units of 2^-{e}" if fl else "") + f", fewer than {steps} steps"))
    hs.append(Harness("zero_step", zero_step_body, {}, bounds="any start and stop"))
    return hs


# ------------------------------------------------------------------------ F05
def main_stubs(env, result, log):
    """Replaces reading and searching by recorders."""
    fp = env.mod(FP)
    series = floats(env, [Fraction(1), Fraction(9)])

    sigs = {}

    def recorder(name, value):
        sig = sigs.setdefault(name, inspect.signature(inspect.unwrap(getattr(fp, name))))

        def f(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            log.append((name, b.arguments))
            return value(b.arguments) if callable(value) else value
        env.patch(fp, name, f)
    recorder("read_a1", lambda a: (series, None))
    recorder("get_timestamp", lambda a: series)
    recorder("get_first_overlapping_epoch", lambda a: ("ba1f36c0", 1000) if a.get("return_length") else "ba1f36c0")
    recorder("fpfind", result)
    return fp, recorder


def parse_real(env, s):
    """Number printed by the command."""
    return exact(env.number(s, "f"))


def output_body(env):
    p = env.p
    flag = p["flag"]
    dt = env.real("dt", -MAXDELAY, MAXDELAY)
    df = env.real("df", Fraction(-1, 8192), Fraction(1, 8192))
    log = []
    fp, _ = main_stubs(env, (env.real_value(dt), env.real_value(df)), log)
    r = env.main(fp, ["fpfind", "-t", "ref", "-T", "tgt", "-V", str(flag)])
    line = r.out
    env.check("one line", line.count("\n") == 1 and line.endswith("\n"))
    parts = line.strip("\n").split("\t")
    env.check("frequency and time" if not flag & 4 else "frequency only", len(parts) == (1 if flag & 4 else 2))
    if flag & 1:
        dt, df = -dt / (1 + df), 1 / (1 + df) - 1
    if flag & 2:
        f = env.number(parts[0])
        env.check("frequency in units of 2^-34, nearest integer", nearest(env, f, df * (1 << 34)))
    else:
        env.check("frequency", near(env, parse_real(env, parts[0]), df, Fraction(1, 10 ** 6)))
    if not flag & 4 and len(parts) == 2:
        t = env.number(parts[1])
        env.check("time, nearest integer", nearest(env, t, dt * 8 if flag & 8 else dt))


def nearest(env, i, x):
    i = exact(i)
    if env.sym:
        d = to_real(i) - x
        more = Fraction(1, 2) + Fraction(1, 1000)
        return tolerant(AND(d <= Fraction(1, 2), -d <= Fraction(1, 2)), AND(d <= more, -d <= more))
    return abs(float(i) - float(x)) <= 0.5 + 1e-6


def F05(tier):
    hs = []
    for flag in range(16):
        hs.append(Harness(f"flags_{flag:04b}", output_body, dict(flag=flag), tolerance=True, witness=4,
                          bounds=f"any time offset within 100 ms and frequency offset within 2^-13, output flags {flag:04b}"))
    return hs


# ------------------------------------------------------------------------ F06
EPOCH_NS = 1 << 29


def first_arg(a):
    return next(iter(a.values()))


def search_options(env):
    """Options of the search: (arguments, expected parameters)."""
    p = env.p
    res = env.int("res", 1, 1 << 12)
    final = env.int("final", 1, 1 << 12)
    wraps = env.int("wraps", 1, 16)
    q = p["order"]
    argv = ["-R", env.dec(res), "-r", env.dec(final), "-k", env.dec(wraps), "-q", str(q), "-s", str(p["sep"]), "-S", str(p["threshold"])]
    ta = res * wraps * (1 << q)
    num, den = Fraction(p["sep"]).numerator, Fraction(p["sep"]).denominator
    want = dict(num_wraps=wraps, num_bins=1 << q, resolution=res, target_resolution=final, threshold=p["threshold"])
    want = {k: Flt(*dyadic(v)) if isinstance(v, float) else v for k, v in want.items()}
    return argv, want, ta, num, den


def dyadic(x):
    f = Fraction(x)
    return f.numerator, -(f.denominator.bit_length() - 1)


def check_search(env, fp, got, want, ta, num, den, A, B, pre):
    for k, v in want.items():
        env.check(f"search parameter {k}", EQ(got[k], v))
    k = den.bit_length() - 1
    env.check("search parameter separation_duration", EQ(got["separation_duration"], scaled(ta * num, -k)))
    env.check("reference series", same_list(vals(got["alice"]), A))
    env.check("target series", same_list(vals(got["bob"]), B))
    env.check("precompensations", same_list(vals(got["precompensations"]), pre))


def pre_options(env, fp):
    if not env.p.get("pre"):
        return [], [0], False
    o, full = env.p["pre"] == "ordered", env.p["pre"] == "full"
    a = ["-P", "--precomp-start", "0.25", "--precomp-step", "0.5", "--precomp-stop", "1.75"] + (["--precomp-ordered"] if o else []) + (
        ["--precomp-fullscan"] if full else [])
    ks = [0, 1, 2, 3] if o else [0, 1, -1, 2, -2, 3, -3]
    return a, [Flt(1 + 2 * k, -2) for k in ks], full


def epochs_source_body(env):
    p = env.p
    log = []
    fp, rec = main_stubs(env, (1.0, 0.0), log)
    skip = env.int("skip", 0, 1 << 16) if p["skip"] else 0
    first = env.int("first", 0, (1 << 32) - 1)
    avail = env.int("available", 1, 1 << 20)
    name = env.mod("fpfind.lib.parse_epochs").int2epoch(first)
    rec("get_first_overlapping_epoch", lambda a: (name, avail) if a.get("return_length") else name)
    S1 = floats(env, [Fraction(7), Fraction(12)])
    S2 = floats(env, [Fraction(3), Fraction(8), Fraction(11)])
    rec("get_timestamp", lambda a: S1 if str(a["dirname"]) == "send" else S2)
    argv, want, ta, num, den = search_options(env)
    pre, plist, full = pre_options(env, fp)
    r = env.main(fp, ["fpfind", "-d", "send", "-D", "t1"] + argv + pre + (["-z", env.dec(skip)] if p["skip"] else [])
                 + (["-e", "ba1f36c0"] if p["first"] else []))
    env.check("runs", r.exc is None)
    ov = [a for n, a in log if n == "get_first_overlapping_epoch"]
    env.check("common epochs of both directories", len(ov) > 0 and all({str(a["dir1"]), str(a["dir2"])} == {"send", "t1"} for a in ov))
    env.check("requested first epoch", all(a.get("first_epoch") == ("ba1f36c0" if p["first"] else None) for a in ov))
    ts = {str(a["dirname"]): a for n, a in log if n == "get_timestamp"}
    env.check("both directories read", set(ts) == {"send", "t1"} and sum(n == "get_timestamp" for n, _ in log) == 2)
    env.check("no timestamp file read", not any(n == "read_a1" for n, _ in log))
    for d, kind in (("send", "T2"), ("t1", "T1")):
        if d not in ts:
            continue
        a = ts[d]
        env.check(f"{d}: file type", a["file_type"] == kind)
        env.check(f"{d}: first epoch after the skipped ones", EQ(env.number(a["first_epoch"], "i", 16) + raw(a["skip_epoch"]), first + skip))
        n = raw(a["num_of_epochs"])
        env.check(f"{d}: enough epochs", (n - 1) * EPOCH_NS * den >= ta * (num + den))
        env.check(f"{d}: no more than one epoch besides", (n - 2) * EPOCH_NS * den < ta * (num + den))
    calls = [a for n, a in log if n == "fpfind"]
    env.check("one search", len(calls) == 1)
    if calls:
        check_search(env, fp, calls[0], want, ta, num, den, [Flt(0, 0), Flt(5, 0)], [Flt(1, 0), Flt(4, 0)], plist)
        env.check("search parameter precompensation_fullscan", bool(calls[0]["precompensation_fullscan"]) == full)


def files_source_body(env):
    p = env.p
    log = []
    fp, rec = main_stubs(env, (1.0, 0.0), log)
    T1 = [7 * 10 ** 8, 9 * 10 ** 8, 6 * 10 ** 9]
    T2 = [3 * 10 ** 8, 8 * 10 ** 8, 5 * 10 ** 9, 9 * 10 ** 9]
    S1, S2 = (floats(env, [Fraction(x) for x in t]) for t in (T1, T2))
    rec("read_a1", lambda a: (S1 if str(first_arg(a)) == "ref" else S2, None))
    argv, want, ta, num, den = search_options(env)
    pre, plist, full = pre_options(env, fp)
    k = env.int("skip", 0, 32) if p["skip"] else 0            # eighths of a second
    if p["skip"]:
        argv += ["-Z", env.dec(scaled(k, -3)) if env.sym else repr(k / 8)]
    r = env.main(fp, ["fpfind", "-t", "ref", "-T", "tgt"] + argv + pre + (["-X"] if p["legacy"] else []))
    env.check("runs", r.exc is None)
    rd = {str(first_arg(a)): a for n, a in log if n == "read_a1"}
    env.check("both files read", set(rd) == {"ref", "tgt"})
    env.check("word order", all(bool(a["legacy"]) == p["legacy"] for a in rd.values()))
    env.check("no epoch read", not any(n == "get_timestamp" for n, _ in log))
    base = 7 * 10 ** 8 + k * 125 * 10 ** 6
    keep = lambda t: [Flt(x - base, 0) for x in t if x >= base]
    calls = [a for n, a in log if n == "fpfind"]
    env.check("one search", len(calls) == 1)
    if calls:
        check_search(env, fp, calls[0], want, ta, num, den, keep(T1), keep(T2), plist)
        env.check("search parameter precompensation_fullscan", bool(calls[0]["precompensation_fullscan"]) == full)


def no_source_body(env):
    log = []
    fp, _ = main_stubs(env, (1.0, 0.0), log)
    r = env.main(fp, ["fpfind"] + env.p["argv"])
    env.check("refused", r.is_exc(SystemExit) and r.exc.code not in (0, None))
    env.check("nothing read, no search", log == [])
    env.check("no result", r.out == "")


def F06(tier):
    hs = []
    quick = tier == "quick"
    for order, sep in ((20, 6.0), (10, 0.5), (26, 2.75)) if quick else ((8, 6.0), (20, 6.0), (10, 0.5), (16, 1.0), (24, 10.0), (26, 2.75)):
        for skip in (False, True):
            for pre in ("", "ordered", "full") if order == 20 or not quick else ("plain",):
                c = dict(order=order, sep=sep, threshold=6.5, pre=pre, skip=skip)
                b = f"any resolutions up to 2^12, 1-16 wraps, 2^{order} bins, separation {sep}"
                hs.append(Harness(f"epochs_{order}_{pre or 'none'}_{'skip' if skip else 'noskip'}", epochs_source_body, dict(c, first=pre != ""), witness=4,
                                  bounds=b + ", any first epoch and number of skipped epochs"))
                hs.append(Harness(f"files_{order}_{pre or 'none'}_{'skip' if skip else 'noskip'}", files_source_body, dict(c, legacy=pre != ""), witness=4,
                                  bounds=b + ", any skip duration of eighths up to 4 s"))
    for i, a in enumerate((["-t", "x"], ["-T", "x"], ["-d", "x"], ["-D", "x"], ["-t", "x", "-D", "x"], [])):
        hs.append(Harness(f"nosource_{i}", no_source_body, dict(argv=a), bounds="incomplete sources"))
    return hs


# ------------------------------------------------------------------------ F07
def recover_body(env):
    """The whole search on a reference and a delayed copy of it, nothing replaced."""
    p = env.p
    fp = env.mod(FP)
    N, r0, rt, w, sep, sub = p["bins"], p["res"], p["target"], p["wraps"], p["sep"], p["sub"]
    dur, reach = N * r0 * w, N * r0 // 2
    S = sep * dur
    d = env.int("delay", -reach * sub, reach * sub - 1)      # in units of 1/sub ns
    slots = (dur - 2 * reach) // r0 - 1                      # both copies within the window
    gaps = p["gaps"]
    A = []
    ends = (0, slots // 2, slots - max(gaps))
    for u, start in zip(env.pick("positions", p["positions"]), (0, S)):
        u = ends[u]
        A += [start + reach + r0 * (u + g) for g in gaps]
    A.append(S + 3 * dur)
    shift = sub.bit_length() - 1
    ref = env.array([scaled(t * sub, -shift) for t in A], "float64")
    tgt = env.array([scaled(t * sub + d, -shift) for t in A], "float64")
    pre = [Fraction(x) for x in p["pre"]]
    if env.sym:
        env.E.fork_bins = True                               # which bin: one path each
    r = env.call(fp.fpfind, ref, tgt, w, N, float(r0), float(rt), p["threshold"], float(S), [float(x) for x in pre], p["full"], expect=(ValueError,))
    q = ((d // (r0 * sub)) % N)
    for k in range(N):
        if bool(q == k):
            break
    pairs = [sum(1 for x in gaps for y in gaps if (y - x + k - j) % N == 0) for j in range(N)]
    # the peak stands out unless the background is flat
    flat = len({pairs[j] for j in list(range(k // 2, k)) + list(range(k + 1, min(N, (N + k) // 2 + 1)))}) < 2
    env.check("found unless the background is flat", flat or r.exc is None)
    if r.exc is not None:
        env.reach("flat")
        return
    dt, df = exact(r.value[0]), exact(r.value[1])
    want = (d // (rt * sub)) * rt                            # start of the target bin
    env.check("no frequency offset for a plain delay", same(env, df, 0))
    env.check("delay resolved to the bin width asked for", AND(le(env, to_real(want) if env.sym else want, dt), le(env, dt, to_real(want) if env.sym else want)))
    env.reach("found")


def F07(tier):
    hs = []
    quick = tier == "quick"
    for gaps in ((0, 1), (0, 1, 3)) if quick else ((0, 1), (0, 3), (0, 1, 3), (0, 2, 5), (0, 1, 3, 7)):
        for N, r0, rt, w, sep in ((8, 4, 1, 3, 6), (8, 2, 2, 3, 2), (16, 8, 1, 2, 12)) if quick else (
                (8, 4, 1, 3, 6), (8, 2, 2, 3, 2), (16, 8, 1, 2, 12), (16, 4, 1, 2, 6), (16, 8, 4, 2, 3), (32, 8, 1, 2, 12)):
            hs.append(Harness(f"recover_{len(gaps)}{gaps[-1]}_N{N}_r{r0}_t{rt}", recover_body,
                              dict(bins=N, res=r0, target=rt, wraps=w, sep=sep, sub=8, gaps=gaps, positions=((0, 2), (1, 0)) if quick else [(i, j) for i in range(3) for j in range(3)],
                                   threshold=0.01, pre=(0,), full=False),
                              witness=6, tolerance=True,
                              bounds=f"any delay of eighths of ns within half of {N} bins of {r0} ns, {len(gaps)} events at {2 if quick else 9} positions of the two windows, target bins of {rt} ns"))
    return hs


PROPS = {k: v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "F" and k[1:].isdigit()}

ASSUME = ["floats are idealised as exact reals (F01-F03: identities up to rounding; witnesses are replayed with floats, compared within rounding)",
          "F01-F03: transform, peak position and significance are stand-ins returning arbitrary values (decided by U02-U05); F07: nothing is replaced"]


def check(pid, tier, seed, only):
    return report.check(pid, PROPS[pid](tier), tier, seed, only, budget=100 if tier == "quick" else 600, assumptions=ASSUME)


def replay(v):
    return report.replay(v, PROPS[v["property"]](v.get("tier", "quick")))
