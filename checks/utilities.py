"""U01-U06: series slicing, correlation indices, binning, peak statistics, histograms."""
from fractions import Fraction

import numpy as np

from vlib import report
from vlib.harness import (AND, EQ, IFF, IMPL, ITE, NOT, OR, Harness, norm_cond, raw, same_list,
                          scaled, vals)
from vlib.sym import Flt, Real, f_mul, f_sub, mkbool, to_flt, to_real, z3

UT = "fpfind.lib.utils"


def exact_sub(a, b):
    return f_sub(to_flt(a), to_flt(b), 4000)


def sorted_series(env, n, bits, tag, signed=False):
    T = [env.int(f"{tag}{i}", -(1 << bits) + 1, (1 << bits) - 1) if signed else env.bits(f"{tag}{i}", bits) for i in range(n)]
    for a, b in zip(T, T[1:]):
        env.assume(a <= b)
    return T


def series_array(env, T, dtype, k):
    return env.array([scaled(t, -k) if np.dtype(dtype).kind == "f" else t for t in T], dtype)


def kept(env, T, cond):
    """Elements satisfying the condition (decides each on the path)."""
    out = []
    for t in T:
        if cond(t):
            out.append(t)
    return out


# ------------------------------------------------------------------------ U01
def slice_body(env):
    ut = env.mod(UT)
    p = env.p
    n, k, bits = p["n"], p["scale"], p["bits"]
    T = sorted_series(env, n, bits, "t")
    arr = series_array(env, T, p["dtype"], k)
    isint = np.dtype(p["dtype"]).kind != "f"
    start = env.bits("start", min(bits, 53)) if p["start"] else None
    dur = env.bits("duration", min(bits, 53)) if p["duration"] else None

    def arg(v):
        # an integer for integer series, a float otherwise
        if v is None or isint:
            return v
        return env.real_value(scaled(v, -k))
    kw = {}
    if start is not None:
        kw["start"] = arg(start)
    if dur is not None:
        kw["duration"] = arg(dur)
    r = ut.slice_timestamps(arr, **kw)
    s = start if start is not None else T[0]
    want = kept(env, T, lambda t: AND(t >= s, True if dur is None else t < s + dur))
    env.check("exactly the events in the range", len(r) == len(want))
    env.check("shifted by the start", same_list(vals(r), [scaled(t - s, -k) if not isint else t - s for t in want]))
    env.check("caller's array unchanged", same_list(vals(arr), [scaled(t, -k) if not isint else t for t in T]))
    env.observe("r", r)


def normalize_body(env):
    ut = env.mod(UT)
    p = env.p
    k, bits = p["scale"], p["bits"]
    S = [sorted_series(env, n, bits, f"s{i}_") for i, n in enumerate(p["sizes"])]
    arrs = [series_array(env, T, p["dtype"], k) for T in S]
    kw = {}
    skip_ns = 0                                     # in units of 2^-k ns
    if p["skip"]:
        u = env.bits("skip", 12)                    # in units of 2^-9 s
        kw["skip"] = env.real_value(scaled(u, -9))
        skip_ns = u * (1953125 << k)
    if p.get("separate"):
        kw["preserve_relative"] = False
    out = ut.normalize_timestamps(*arrs, **kw)
    base = [T[0] if p.get("separate") else 0 for T in S]
    shifted = [[t - b for t in T] for T, b in zip(S, base)]
    s = shifted[0][0]
    for T in shifted[1:]:
        s = ITE(T[0] > s, T[0], s)
    s = s + skip_ns
    env.check("one result per series", len(out) == len(S))
    for i, (T, r) in enumerate(zip(shifted, out)):
        want = kept(env, T, lambda t: t >= s)
        env.check(f"series {i}: events from the common start on", len(r) == len(want))
        env.check(f"series {i}: shifted by the common start", same_list(vals(r), [scaled(t - s, -k) for t in want]))
        env.observe(f"r{i}", r)
    for T, a in zip(S, arrs):
        env.check("caller's arrays unchanged", same_list(vals(a), [scaled(t, -k) for t in T]))


def U01(tier):
    hs = []
    quick = tier == "quick"
    for dtype, k, bits in (("float128", 8, 54), ("float64", 3, 50), ("int64", 0, 54), ("uint64", 0, 54)):
        for n in (1, 2, 3) if quick else (1, 2, 3, 4, 5):
            for st in (False, True):
                for du in (False, True):
                    hs.append(Harness(f"slice_{dtype}_n{n}_{'start' if st else 'nostart'}_{'dur' if du else 'nodur'}", slice_body,
                                      dict(n=n, dtype=dtype, scale=k, bits=bits, start=st, duration=du),
                                      bounds=f"{n} sorted {bits}-bit times as {dtype}, any start and duration"))
    for sizes in ((1, 1), (2, 2), (1, 2, 1)) if quick else ((1, 1), (2, 2), (3, 2), (1, 2, 1), (3, 3), (1, 1, 1, 1)):
        for skip in (False, True):
            for sep in (False, True):
                hs.append(Harness(f"normalize_{''.join(map(str, sizes))}_{'skip' if skip else 'noskip'}{'_separate' if sep else ''}", normalize_body,
                                  dict(sizes=sizes, dtype="float128", scale=8, bits=52, skip=skip, separate=sep),
                                  bounds=f"{len(sizes)} sorted series of {sizes} 52-bit times, any skip below 8 s in steps of 2^-9 s"))
    return hs


# ------------------------------------------------------------------------ U02
def delay_ok(pair, k, n, r, sc):
    """pair is the two delays of index k, smaller magnitude first."""
    a, b = (raw(x) for x in pair)
    if k == 0:
        return AND(EQ(a, 0), EQ(b, 0))
    p, m = scaled(k * r, -sc), scaled(-(n - k) * r, -sc)
    if 2 * k < n:
        return AND(EQ(a, p), EQ(b, m))
    if 2 * k > n:
        return AND(EQ(a, m), EQ(b, p))
    return OR(AND(EQ(a, p), EQ(b, m)), AND(EQ(a, m), EQ(b, p)))


def bins_of(env, n):
    sc = 4
    r = env.int("resolution", 1, (1 << 34) - 1)
    return r, sc, env.array([scaled(k * r, -sc) for k in range(n)], "float64")


def index_body(env):
    ut = env.mod(UT)
    n = env.p["n"]
    r, sc, tb = bins_of(env, n)
    for k in range(n):
        env.check(f"delays of index {k}", delay_ok(ut.get_delay_at_index_fft(tb, k), k, n, r, sc))
    out = env.call(ut.get_delay_at_index_fft, tb, -1, expect=(AssertionError,))
    env.check("negative index refused", out.is_exc(AssertionError))


def heights(env, n, bits=16):
    H = [env.bits(f"h{i}", bits) for i in range(n)]
    return H, env.array([scaled(h, -3) for h in H], "float64")


def peak_body(env):
    ut = env.mod(UT)
    n = env.p["n"]
    r, sc, tb = bins_of(env, n)
    H, hist = heights(env, n)
    pair = ut.get_timing_delay_fft(hist, tb)
    env.check("delays of a highest bin", OR(*[
        AND(delay_ok(pair, k, n, r, sc), *[H[k] >= h for h in H]) for k in range(n)]))
    env.observe("pair", [raw(x) for x in pair])


def topk_body(env):
    ut = env.mod(UT)
    n, k = env.p["n"], env.p["k"]
    r, sc, tb = bins_of(env, n)
    H, hist = heights(env, n, 8)
    if env.p.get("distinct"):
        for i in range(n):
            for j in range(i):
                env.assume(H[i] != H[j])
    out = ut.get_top_k_delays_fft(hist, tb, k)
    env.check("k entries", len(out) == k)
    # rank of an index: number of higher bins
    for pos, item in enumerate(out):
        pair = tuple(item)[-2:]
        cs = []
        for i in range(n):
            higher = 0
            ties = 0
            for j in range(n):
                higher = higher + ITE(H[j] > H[i], 1, 0)
                ties = ties + ITE(H[j] == H[i], 1, 0)
            c = AND(delay_ok(pair, i, n, r, sc), higher <= pos, higher + ties > pos)
            if len(item) == 3:
                c = AND(c, EQ(item[0], scaled(H[i], -3)))
            cs.append(c)
        env.check(f"entry {pos} is a bin of that rank", OR(*cs))
    hs = [raw(x[0]) for x in out if len(x) == 3]
    env.check("descending", AND(*[a >= b for a, b in zip(hs, hs[1:])]))
    env.observe("heights", hs)


def convert_body(env):
    """Axis from -N/2 to N/2 - 1 bins, each height at its signed delay."""
    ut = env.mod(UT)
    n = env.p["n"]
    r, sc, tb = bins_of(env, n)
    H, hist = heights(env, n)
    h, t = ut.convert_histogram_fft(hist, tb)
    want = [(k - n if 2 * k >= n else k, k) for k in range(n)]
    want.sort()
    env.check("heights", same_list(vals(h), [scaled(H[k], -3) for _, k in want]))
    env.check("signed delays", same_list(vals(t), [scaled(d * r, -sc) for d, _ in want]))
    env.observe("t", t)


def U02(tier):
    hs = []
    quick = tier == "quick"
    for n in (1, 2, 3, 4, 7, 8, 16) if quick else tuple(range(1, 33)) + (64, 128):
        hs.append(Harness(f"index_n{n}", index_body, dict(n=n), bounds=f"every index of {n} bins of any width"))
    for n in (1, 2, 3, 4, 5, 8) if quick else tuple(range(1, 17)):
        hs.append(Harness(f"peak_n{n}", peak_body, dict(n=n), bounds=f"any heights in {n} bins of any width"))
    for n, k in ((2, 1), (2, 2), (3, 2), (4, 1), (4, 2), (4, 3)) if quick else [(n, k) for n in (1, 2, 3, 4, 5) for k in range(1, n + 1)]:
        if n >= 1:
            hs.append(Harness(f"topk_n{n}_k{k}", topk_body, dict(n=n, k=k), witness=20, bounds=f"any heights in {n} bins, {k} highest"))
    for n in (2, 4, 8) if quick else (2, 4, 6, 8, 16, 32):
        hs.append(Harness(f"convert_n{n}", convert_body, dict(n=n), bounds=f"{n} bins of any height and width"))
    return hs


# ------------------------------------------------------------------------ U03
def binning_body(env):
    ut = env.mod(UT)
    p = env.p
    n, N, k = p["n"], p["bins"], p["scale"]
    num, den = p["res"]                                # bin width num/den ns
    T = [env.int(f"t{i}", -(1 << p["bits"]) + 1, (1 << p["bits"]) - 1) if p["signed"] else env.bits(f"t{i}", p["bits"]) for i in range(n)]
    arr = series_array(env, T, p["dtype"], k)
    seen = []

    def capture(x, *a, **kw):
        seen.append(x)
        return x
    env.patch(ut.scipy.fft, "rfft", capture)
    r = num if den == 1 else num / den
    r = float(r) if p.get("floatres") else r
    ut.generate_fft(arr, N, r)
    env.check("one transform", len(seen) == 1)
    got = vals(seen[0])
    env.check("number of bins", len(got) == N)
    # floor(t / 2^k / r) = floor(t * den / (num * 2^k))
    idx = [((t * den) // (num << k)) % N for t in T]
    cs = []
    for b in range(N):
        c = 0
        for i in idx:
            c = ITE(i == b, c + 1, c)
        cs.append(c)
    env.check("every event once, in its cyclic bin", same_list(got, cs))
    env.observe("bins", seen[0])


def binning_empty_body(env):
    ut = env.mod(UT)
    r = env.call(ut.generate_fft, env.array([], env.p["dtype"]), 4, 1.0, expect=(ValueError,))
    env.check("empty series rejected", r.is_exc(ValueError))


def U03(tier):
    hs = []
    quick = tier == "quick"
    for dtype, k in (("float128", 8), ("float64", 4), ("int64", 0)):
        for res in ((1, 1), (16, 1), (1, 2), (3, 1)) if quick else ((1, 1), (2, 1), (16, 1), (256, 1), (1, 2), (1, 8), (3, 1), (10, 1), (5, 2), (100, 1)):
            for n, N in ((1, 4), (2, 4), (3, 2)) if quick else ((1, 4), (2, 4), (3, 4), (2, 8), (4, 2), (1, 16), (2, 5)):
                wide = res[0] & (res[0] - 1) == 0
                hs.append(Harness(f"bins_{dtype}_r{res[0]}o{res[1]}_n{n}_N{N}", binning_body,
                                  dict(n=n, bins=N, scale=k, res=res, dtype=dtype, bits=(50 if wide else 24), signed=n == 1, floatres=dtype != "int64"),
                                  bounds=f"{n} arbitrary {'50' if wide else '24'}-bit times ({dtype}), {N} bins of {res[0]}/{res[1]} ns", witness=20))
    for dtype in ("float128", "float64"):
        hs.append(Harness(f"empty_{dtype}", binning_empty_body, dict(dtype=dtype), bounds="empty series"))
    return hs


# ------------------------------------------------------------------------ U04
def ge(env, a, b):
    """a >= b; up to rounding noise of the real transform in replays."""
    a, b = raw(a), raw(b)
    return a >= b if env.sym else float(a) >= float(b) - 1e-6


def at(cs, i):
    r = cs[-1]
    for k in reversed(range(len(cs) - 1)):
        r = ITE(i == k, cs[k], r)
    return r


def check_delay(env, ut, fa, fb, d, N):
    c = ut.get_xcorr(fa, fb)
    env.check("one correlation value per bin", len(c) == N)
    cs = vals(c)
    best = at(cs, d)
    env.check("the delay has the highest correlation", AND(*[ge(env, best, v) for v in cs]))
    unique = AND(*[OR(d == k, best >= raw(v) + Fraction(1, 2) if not env.sym else raw(v) < best) for k, v in enumerate(cs)])
    tb = env.array([scaled(k * 3, -1) for k in range(N)], "float64")
    a = raw(ut.get_timing_delay_fft(c, tb)[0])
    want = ITE(2 * d < N, d, d - N)
    env.check("reported delay is the true one", IMPL(AND(unique, d != N // 2 if N % 2 == 0 else True), EQ(a, scaled(want * 3, -1))))
    env.reach("done")


def events_delay_body(env):
    ut = env.mod(UT)
    p = env.p
    n, N, bits, m = p["n"], p["bins"], p["bits"], p["half"]
    d = env.int("delay", 0, N - 1)
    T = [env.bits(f"t{i}", bits) for i in range(n)]           # half nanoseconds, bins of m of them
    fa = ut.generate_fft(env.array([scaled(t, -1) for t in T], "float128"), N, m / 2)
    fb = ut.generate_fft(env.array([scaled(t + m * d, -1) for t in T], "float128"), N, m / 2)
    check_delay(env, ut, fa, fb, d, N)


def heights_delay_body(env):
    ut = env.mod(UT)
    p = env.p
    N, bits, d = p["bins"], p["bits"], p["delay"]
    H = [env.bits(f"h{i}", bits) for i in range(N)]
    rfft = ut.scipy.fft.rfft
    fa = rfft(env.array([scaled(h, 0) for h in H], "float64"))
    fb = rfft(env.array([scaled(H[(i - d) % N], 0) for i in range(N)], "float64"))
    check_delay(env, ut, fa, fb, d, N)


def U04(tier):
    hs = []
    quick = tier == "quick"
    for n, N, bits, m in ((1, 4, 8, 3), (1, 4, 8, 2), (2, 4, 6, 3), (2, 4, 6, 2), (2, 6, 5, 2), (3, 4, 5, 2)) if quick else (
            (1, 4, 12, 3), (1, 8, 8, 3), (2, 4, 8, 3), (2, 4, 8, 2), (2, 4, 8, 4), (2, 6, 6, 3), (2, 8, 6, 2), (3, 4, 6, 3), (3, 4, 6, 2), (3, 6, 5, 2), (4, 4, 5, 2)):
        hs.append(Harness(f"events_n{n}_N{N}_m{m}", events_delay_body, dict(n=n, bins=N, bits=bits, half=m), tolerance=True, witness=10,
                          bounds=f"{n} events at any {bits}-bit time (half ns), any cyclic delay of {N} bins of {m}/2 ns"))
    for N, bits in ((4, 4), (6, 2)) if quick else ((4, 8), (6, 4), (8, 3)):
        for d in range(N) if not quick else (0, 1, N // 2, N - 1):
            hs.append(Harness(f"heights_N{N}_d{d}", heights_delay_body, dict(bins=N, bits=bits, delay=d), tolerance=True, witness=10,
                              bounds=f"any {bits}-bit histogram of {N} bins delayed cyclically by {d}"))
    return hs


# ------------------------------------------------------------------------ U05
def ramp(env, N, peak):
    """Histogram with distinct heights and its highest bin at 'peak'."""
    H = [10 + 3 * i for i in range(N)]
    H[peak] = 1000
    return H, env.array([scaled(h, 0) for h in H], "float64")


def regions_body(env):
    ut = env.mod(UT)
    p = env.p
    N, peak, (num, den) = p["bins"], p["peak"], p["res"]
    H, hist = ramp(env, N, peak)
    u = env.bits("window", p["wbits"])                       # in units of 1/16 ns
    kw = dict(window=env.real_value(scaled(u, -4)))
    if p["center"]:
        # any time within the bin of the peak; negative times count from the end
        f = env.int("offset", 0, num * 16 // den - 1)
        c = (peak if p["center"] > 0 else N - peak) * num * 16 // den + f
        kw["center"] = env.real_value(scaled(c if p["center"] > 0 else -c, -4))
    s = ut.get_statistics(hist, num / den, **kw)
    si = [H.index(int(x)) for x in vals_conc(s.signal)]
    bi = [H.index(int(x)) for x in vals_conc(s.background)]
    env.check("signal contains the peak bin", peak in si)
    env.check("signal is a contiguous range", len(si) > 0 and si == list(range(si[0], si[-1] + 1)))
    env.check("signal and background are disjoint", not set(si) & set(bi))
    left = [i for i in bi if si and i < si[0]]
    right = [i for i in bi if si and i > si[-1]]
    env.check("background is a contiguous range on either side", bi == left + right and all(
        x == list(range(x[0], x[-1] + 1)) for x in (left, right) if x))
    env.check("background reaches up to the signal", (not left or left[-1] == si[0] - 1) and (not right or right[0] == si[-1] + 1))
    # bins within half a window of the peak are signal, the others are not
    for i in range(N):
        d = abs(i - peak)
        if d == 0:
            continue
        inside = (d - 1) * 32 * num < u * den                # d - 1 < window / 2 / res
        env.check(f"bin {i} is signal iff within half a window", inside if i in si else NOT(inside))
    # every statistic has a value, or none where there is no background to compare with
    names = ("max", "mean", "stdev", "total", "significance", "significance_raw", "significance2", "g2")
    got = [env.call(lambda n=n: getattr(s, n), expect=(Exception,)) for n in names]
    env.check("no statistic fails", not any(g.is_exc(Exception) for g in got))
    if len(bi) == 0:
        env.check("no background, no comparison", all(g.value is None for g in (got[1], got[2], got[3], got[5], got[6], got[7]))
                  and got[4].value == 0)
    env.observe("signal", si)
    env.observe("background", bi)


def plain_body(env):
    ut = env.mod(UT)
    n = env.p["bins"]
    H, hist = heights(env, n)
    s = ut.get_statistics(hist)
    env.check("whole histogram", AND(*[same_list(vals(x), vals(hist)) for x in (s.signal, s.background)]))
    out = env.call(ut.get_statistics, hist, None, 1.0, expect=(ValueError,))
    env.check("center without resolution refused", out.is_exc(ValueError))


def significance_body(env):
    ut = env.mod(UT)
    S = [env.integer(f"s{i}", 0, env.p["top"], rounding=False) for i in range(env.p["ns"])]
    B = [env.integer(f"b{i}", 0, env.p["top"], rounding=False) for i in range(env.p["nb"])]
    st = ut.PeakStatistics(env.array(S, "float64"), env.array(B, "float64"))
    g = env.real_value(st.significance)
    n, t = len(B), sum(B)
    # n^2 var = n sum b^2 - (sum b)^2;  (g sd)^2 against (max - mean)^2
    v = n * sum(b * b for b in B) - t * t
    top = S[0]
    for x in S[1:]:
        top = ITE(x > top, x, top)
    d = n * top - t                                          # n (max - mean)
    lo, hi = real_of(g) - Fraction(501, 10 ** 6), real_of(g) + Fraction(501, 10 ** 6)
    env.check("zero deviation gives zero", IMPL(v == 0, real_of(g) == 0))
    # with v > 0:  lo sqrt(v) <= d <= hi sqrt(v)
    env.check("not below", IMPL(v > 0, OR(AND(hi >= 0, OR(d <= 0, d * d <= hi * hi * v)), AND(hi < 0, d <= 0, d * d >= hi * hi * v))))
    env.check("not above", IMPL(v > 0, OR(AND(lo <= 0, OR(d >= 0, d * d <= lo * lo * v)), AND(lo > 0, d >= 0, d * d >= lo * lo * v))))
    env.observe("significance", raw(g))


def ratio_checks(env, name, g, num, v, den, slack):
    """g = num / (den sqrt(v)) up to 'slack', for v > 0 and den > 0."""
    lo, hi = real_of(g) - slack, real_of(g) + slack
    q = den * den * v
    env.check(f"{name} not below", OR(AND(hi >= 0, OR(num <= 0, num * num <= hi * hi * q)), AND(hi < 0, num <= 0, num * num >= hi * hi * q)))
    env.check(f"{name} not above", OR(AND(lo <= 0, OR(num >= 0, num * num <= lo * lo * q)), AND(lo > 0, num >= 0, num * num >= lo * lo * q)))


def spread(xs):
    """n^2 times the variance."""
    t = sum(xs)
    return len(xs) * sum(x * x for x in xs) - t * t


def highest(xs):
    top = xs[0]
    for x in xs[1:]:
        top = ITE(x > top, x, top)
    return top


def statistics_body(env):
    ut = env.mod(UT)
    kind = env.p["kind"]
    # counts; any real heights where the solver cannot handle counts
    height = (lambda x: env.real(x, 0, env.p["top"])) if env.p.get("reals") else lambda x: env.integer(x, 0, env.p["top"], rounding=False)
    S = [height(f"s{i}") for i in range(env.p["ns"])]
    B = [height(f"b{i}") for i in range(env.p["nb"])]
    if env.p.get("reals"):
        env.assume(spread(B) >= 1)                          # clear of rounding
    st = ut.PeakStatistics(env.array(S, "float64"), env.array(B, "float64"))
    n, t = len(B), sum(B)
    tiny = Fraction(1, 10 ** 6)
    if kind == "sums":
        close = lambda x, y: AND(real_of(x) * n - y <= tiny, y - real_of(x) * n <= tiny)      # x = y / n
        env.check("highest signal bin", close(st.max, n * highest(S)))
        env.check("mean background", close(st.mean, t))
        env.check("total signal above background", close(st.total, n * sum(S) - len(S) * t))
        g = st.g2
        if g is None:
            env.check("no ratio only without background counts", t == 0)
        else:
            env.check("background counts present", t > 0)
            d = real_of(g) * t - n * highest(S)
            env.check("ratio of peak to background", AND(d <= tiny * n * env.p["top"], -d <= tiny * n * env.p["top"]))
        env.observe("values", [raw(st.max), raw(st.mean), raw(st.total)])
    elif kind == "raw":
        g, F = st.significance_raw, S + B
        if g is None:
            env.check("no significance only for a flat background", spread(B) == 0)
        else:
            env.check("background not flat", spread(B) > 0)
            # (max - mean) / sd of all bins:  (N max - sum) / sqrt(N^2 var)
            ratio_checks(env, "raw significance", g, len(F) * highest(F) - sum(F), spread(F), 1, Fraction(1, 1000))
    else:
        g, k = st.significance2, len(S)
        m = n // k
        groups = [sum(B[i * k:(i + 1) * k]) for i in range(m)]
        if env.p.get("reals"):
            env.assume(spread(groups) >= 1)
        flat = OR(spread(B) == 0, spread(groups) == 0) if m else True
        if g is None:
            env.check("no significance only without deviation", flat)
        else:
            env.check("groups deviate", NOT(flat))
            # total / sd of the groups:  (T / n) / (sqrt(m^2 var) / m)
            ratio_checks(env, "grouped significance", g, m * (n * sum(S) - k * t), spread(groups), n, Fraction(501, 10 ** 6))
    env.reach("done")


def real_of(g):
    v = raw(g)
    if isinstance(v, Real):
        return v
    if isinstance(v, Flt):
        return Fraction(int(v.m)) * Fraction(2) ** v.e
    return Fraction(float(v)) if isinstance(v, float) else Fraction(v)


def vals_conc(a):
    out = []
    for v in vals(a):
        f = to_flt(v)
        out.append(Fraction(f.m) * Fraction(2) ** f.e)
    return out


def U05(tier):
    hs = []
    quick = tier == "quick"
    for N in (1, 2, 3, 5) if quick else range(1, 10):
        for peak in range(N):
            for res in ((1, 1), (16, 1)) if quick else ((1, 1), (2, 1), (1, 2), (16, 1), (3, 1)):
                for center in (0, 1, -1):
                    if center < 0 and peak == 0:
                        continue
                    wb = (N * 32 * res[0] // res[1]).bit_length() + 1
                    hs.append(Harness(f"regions_N{N}_p{peak}_r{res[0]}o{res[1]}_c{center}", regions_body,
                                      dict(bins=N, peak=peak, res=res, center=center, wbits=wb), witness=6,
                                      bounds=f"{N} bins of {res[0]}/{res[1]} ns, peak at bin {peak}, any window up to {1 << wb}/16 ns"
                                      + (", any center within the peak bin" if center else "")))
    for n in (1, 3) if quick else (1, 2, 3, 4, 6):
        hs.append(Harness(f"plain_N{n}", plain_body, dict(bins=n), bounds=f"any histogram of {n} bins"))
    for ns, nb in ((1, 1), (1, 2), (2, 2)) if quick else ((1, 1), (1, 2), (2, 2), (1, 3), (3, 2), (3, 3)):
        hs.append(Harness(f"significance_s{ns}_b{nb}", significance_body, dict(ns=ns, nb=nb, top=1000), tolerance=True, witness=10,
                          bounds=f"{ns} signal and {nb} background bins with any counts up to 1000", solver_ms=20000))
    for kind, sizes in (("sums", ((1, 1), (2, 1), (2, 3))), ("raw", ((1, 1), (1, 2))), ("grouped", ((1, 2), (2, 1), (2, 4), (2, 3)))):
        for ns, nb in sizes if quick else sizes + (((1, 3), (2, 5), (3, 3)) if kind == "sums" else ()):
            reals = nb > {"sums": 9, "raw": 1, "grouped": 3}[kind]
            hs.append(Harness(f"{kind}_s{ns}_b{nb}", statistics_body, dict(kind=kind, ns=ns, nb=nb, top=1000, reals=reals), tolerance=True, witness=10,
                              bounds=f"{ns} signal and {nb} background bins with any {'heights' if reals else 'counts'} up to 1000", solver_ms=20000))
    return hs


# ------------------------------------------------------------------------ U06
def within(v, want, slack):
    v = real_of(v)
    if isinstance(v, Fraction):                              # whole numbers on both sides
        n, d, k = v.numerator, v.denominator, slack.denominator
        return AND((want * d - n) * k < d * slack.numerator, (want * d - n) * k > -d * slack.numerator)
    return AND(v - slack < want, v + slack > want)


def histogram_body(env):
    ut = env.mod(UT)
    p = env.p
    (na, nb), N, bits, m, w = p["n"], p["bins"], p["bits"], p["half"], p["wraps"]
    A, B = sorted_series(env, na, bits, "a"), sorted_series(env, nb, bits, "b")
    alice, bob = series_array(env, A, p["dtype"], 1), series_array(env, B, p["dtype"], 1)
    kw, skip, num, den = {}, 0, 1, 1
    if p.get("skip"):
        skip = env.bits("skip", bits - 1)
        kw["acq_start"] = env.real_value(scaled(skip, -1))
    if p.get("freq"):
        num, den = p["freq"]
        kw["freq_corr"] = num / den - 1
    if w != 1:
        kw["num_wraps"] = w
    start = ITE(A[0] > B[0], A[0], B[0]) + skip
    span = w * N * m
    ka = [t - start for t in kept(env, A, lambda t: AND(t >= start, t - start < span))]
    kb = [t - start for t in kept(env, B, lambda t: AND(t >= start, (t - start) * num < span * den))]
    r = env.call(ut.histogram_fft, alice, bob, N, m / 2, statistics=p["stats"], expect=(ValueError,), **kw)
    env.check("the caller's series are not modified",
              AND(same_list(vals(alice), [scaled(t, -1) for t in A]), same_list(vals(bob), [scaled(t, -1) for t in B])))
    if not ka or not kb:
        env.check("no events in the window refused", r.is_exc(ValueError))
        env.reach("empty")
        return
    env.check("a histogram is returned", not r.is_exc(ValueError))
    hist, bins = r.value[0], r.value[1]
    env.check("one bin per delay", len(hist) == N and len(bins) == N)
    env.check("delays of the bins", same_list(vals(bins), [scaled(k * m, -1) for k in range(N)]))
    ia = [(t // m) % N for t in ka]
    ib = [((t * num) // (m * den)) % N for t in kb]
    cs = []
    for k in range(N):
        c = 0
        for i in ia:
            for j in ib:
                c = ITE((j - i - k) % N == 0, c + 1, c)
        cs.append(c)
    tiny = Fraction(1, 1000)
    env.check("number of event pairs at every delay", AND(*[within(v, c, tiny) for v, c in zip(vals(hist), cs)]))
    if p["stats"]:
        env.check("number of events used", r.value[2] == len(ka) and r.value[3] == len(kb))
        st = r.value[4]
        top = highest(cs)
        env.check("statistics of the histogram", within(st.max, top, tiny))
    env.reach("histogram")


def U06(tier):
    hs = []
    quick = tier == "quick"
    for dtype in ("float128", "float64"):
        for n, N, m, w, x in (((1, 1), 4, 2, 1, {}), ((1, 2), 4, 3, 2, {}), ((2, 1), 6, 2, 1, dict(skip=True)), ((2, 2), 4, 2, 1, {}),
                              ((1, 2), 4, 2, 1, dict(freq=(5, 4))), ((2, 1), 4, 4, 1, dict(freq=(3, 4), skip=True))) if quick else (
                ((1, 1), 8, 3, 1, {}), ((1, 2), 8, 3, 3, {}), ((2, 1), 6, 3, 2, dict(skip=True)), ((2, 2), 6, 3, 2, dict(skip=True)), ((3, 2), 4, 2, 1, {}),
                ((2, 3), 4, 2, 2, dict(skip=True)), ((1, 2), 6, 3, 2, dict(freq=(5, 4))), ((2, 2), 4, 4, 1, dict(freq=(3, 4), skip=True))):
            hs.append(Harness(f"histogram_{dtype}_n{n[0]}{n[1]}_N{N}_m{m}_w{w}" + "".join(f"_{k}" for k in sorted(x)), histogram_body,
                              dict(n=n, bins=N, half=m, wraps=w, bits=6, dtype=dtype, stats=dtype == "float64" or bool(x), **x), tolerance=True, witness=6,
                              bounds=f"{n[0]} and {n[1]} events at any 6-bit time (half ns), {w} x {N} bins of {m}/2 ns, {x or 'defaults'}"))
    return hs


PROPS = {k: v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "U" and k[1:].isdigit()}

ASSUME = ["numpy primitives behave as re-implemented in vlib/symnp.py (witnesses are replayed on the real numpy)",
          "long double is x87 80-bit, as on this platform",
          "the discrete Fourier transform is exact (U04: transforms are represented by their time-domain series)"]


def check(pid, tier, seed, only):
    return report.check(pid, PROPS[pid](tier), tier, seed, only, budget=100 if tier == "quick" else 600, assumptions=ASSUME)


def replay(v):
    return report.replay(v, PROPS[v["property"]](v.get("tier", "quick")))
