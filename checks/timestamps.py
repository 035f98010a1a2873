"""T01-T09: timestamp files, writers, filters and the parse_timestamps command."""
from fractions import Fraction

import numpy as np

from vlib import report
from vlib.harness import (AND, EQ, IFF, IMPL, ITE, NOT, OR, Harness, norm_cond, raw, same_list,
                          scaled, vals)
from vlib.sym import Flt, f_mul, f_round, f_sub, to_flt

PT = "fpfind.lib.parse_timestamps"
CO = "fpfind.lib.constants"
MASK32 = 0xFFFFFFFF
UNIT = {"NS1": 256, "PS125": 32, "PS4": 1}     # units of 4 ps per unit
SHIFT = {"NS1": 8, "PS125": 5, "PS4": 0}
FORMATS = [("a0", False), ("a1", False), ("a1", True), ("a2", False)]


# ------------------------------------------------------------- specification
def le(v, n):
    return [(v >> (8 * i)) & 0xFF for i in range(n)]


def hexcode(d):
    return ITE(d < 10, d + 48, d + 87)


def hexline(v, n):
    return [hexcode((v >> (4 * i)) & 15) for i in reversed(range(n))] + [10]


def encode(words, fmt, legacy):
    """File bytes of 64-bit event words, from the file specification."""
    out = []
    for w in words:
        lo, hi = w & MASK32, w >> 32
        if fmt == "a0":
            out += hexline(lo, 8) + hexline(hi, 8)
        elif fmt == "a2":
            out += hexline(w, 16)
        else:
            out += le(hi, 4) + le(lo, 4) if legacy else le(lo, 4) + le(hi, 4)
    return out


def store(env, name, words, fmt, legacy):
    """Writes an event file. In the symbolic world text files hold one
    character per symbolic hex digit."""
    if fmt == "a1":
        return env.write(name, encode(words, fmt, legacy))
    lines = []
    for w in words:
        for part, n in ([(w & MASK32, 8), (w >> 32, 8)] if fmt == "a0" else [(w, 16)]):
            lines.append(format(part, f"0{n}x"))
    return env.write(name, "".join(x + "\n" for x in lines))


def words_of(env, n, tag="w"):
    """n arbitrary 64-bit event words: timestamp, 6 flag bits, 4-bit pattern."""
    ws, ts, ps = [], [], []
    for i in range(n):
        w = env.bits(f"{tag}{i}", 64)
        ws.append(w)
        ts.append(w >> 10)
        ps.append(w & 15)
    return ws, ts, ps


def reader(mod, fmt, stream=False):
    return getattr(mod, ("s" if stream else "") + "read_" + fmt)


def is_times(arr, ts, res, frac):
    """Array holds T/unit exactly (fractional) or its floor as uint64."""
    if frac:
        return same_list(vals(arr), [scaled(t, -SHIFT[res]) for t in ts])
    return AND(same_list(vals(arr), [t >> SHIFT[res] for t in ts]))


# ------------------------------------------------------------------- T01, T04
def read_body(env):
    pt, R = env.mod(PT), env.mod(CO).TSRES
    p = env.p
    ws, ts, ps = words_of(env, p["n"])
    f = store(env, "in.dat", ws, p["fmt"], p["legacy"])
    for res, frac in p["kinds"]:
        t, d = reader(pt, p["fmt"])(f, legacy=p["legacy"], resolution=getattr(R, res), fractional=frac)
        tag = f"{p['fmt']}{'x' if p['legacy'] else ''} {res} {'fractional' if frac else 'integer'}"
        env.check(f"{tag}: number of events", len(t) == p["n"] and len(d) == p["n"])
        env.check(f"{tag}: timestamps", is_times(t, ts, res, frac))
        env.check(f"{tag}: patterns", same_list(vals(d), ps))
        if not frac:
            env.check(f"{tag}: unsigned 64-bit", np.dtype(t.dtype) == np.dtype("uint64"))
        env.observe("t " + tag, t)
        env.observe("p " + tag, d)
    env.reach("read")


def default_read_body(env):
    """Default arguments: legacy off, ns, fractional."""
    pt = env.mod(PT)
    p = env.p
    ws, ts, ps = words_of(env, p["n"])
    f = store(env, "in.dat", ws, p["fmt"], False)
    t, d = reader(pt, p["fmt"])(f)
    env.check("default read: timestamps in ns", is_times(t, ts, "NS1", True))
    env.check("default read: patterns", same_list(vals(d), ps))
    env.observe("t", t)


def T01(tier):
    hs = []
    for fmt, leg in FORMATS:
        for n in (0, 1, 2, 3, 6, 20) if tier == "quick" else (0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 20, 40, 100):
            hs.append(Harness(f"read_{fmt}{'x' if leg else ''}_n{n}", read_body,
                              dict(fmt=fmt, legacy=leg, n=n, kinds=[("NS1", True), ("PS4", False)]),
                              bounds=f"{n} arbitrary 64-bit event words"))
    for fmt in ("a0", "a1", "a2"):
        hs.append(Harness(f"default_{fmt}", default_read_body, dict(fmt=fmt, n=2), bounds="2 arbitrary words"))
    return hs


def T04(tier):
    hs = []
    kinds = [(r, f) for r in UNIT for f in (True, False)]
    for fmt, leg in FORMATS:
        for n in (1, 2, 7) if tier == "quick" else (1, 2, 3, 4, 7, 16, 40):
            hs.append(Harness(f"res_{fmt}{'x' if leg else ''}_n{n}", read_body,
                              dict(fmt=fmt, legacy=leg, n=n, kinds=kinds), bounds=f"{n} arbitrary 64-bit event words, all 6 resolution/output kinds"))
            hs.append(Harness(f"sres_{fmt}{'x' if leg else ''}_n{n}", stream_body,
                              dict(fmt=fmt, legacy=leg, n=n, kinds=kinds, sizes=[1, 2]), bounds=f"{n} arbitrary words, streaming reader"))
    return hs


# ------------------------------------------------------------------------ T05
def stream_body(env):
    pt, R = env.mod(PT), env.mod(CO).TSRES
    p = env.p
    n = p["n"]
    ws, ts, ps = words_of(env, n)
    f = store(env, "in.dat", ws, p["fmt"], p["legacy"])
    for res, frac in p["kinds"]:
        for size in p["sizes"]:
            stream, count = reader(pt, p["fmt"], True)(
                f, legacy=p["legacy"], resolution=getattr(R, res), fractional=frac, buffer_size=size)
            batches = [(t, d) for t, d in stream]
            tag = f"{p['fmt']}{'x' if p['legacy'] else ''} {res} {'fractional' if frac else 'integer'} batch {size}"
            env.check(f"{tag}: announced number of batches", count == len(batches) == -(-n // size))
            env.check(f"{tag}: batch sizes", all(len(t) == len(d) == min(size, n - i * size)
                                                 for i, (t, d) in enumerate(batches)))
            allt = [v for t, d in batches for v in vals(t)]
            alld = [v for t, d in batches for v in vals(d)]
            env.check(f"{tag}: timestamps", same_list(allt, [scaled(x, -SHIFT[res]) if frac else x >> SHIFT[res] for x in ts]))
            env.check(f"{tag}: patterns", same_list(alld, ps))
            env.check(f"{tag}: dtype", all(np.dtype(t.dtype) == np.dtype("uint64") for t, d in batches) if not frac else
                      len({np.dtype(t.dtype) for t, d in batches}) <= 1)
            env.observe(tag, [list(allt), list(alld)])


def default_stream_body(env):
    """Default batch size: many events come back complete and in order."""
    pt, R = env.mod(PT), env.mod(CO).TSRES
    p = env.p
    ws, ts, ps = words_of(env, p["n"])
    f = store(env, "in.dat", ws, p["fmt"], p["legacy"])
    stream, count = reader(pt, p["fmt"], True)(f, p["legacy"])
    batches = list(stream)
    env.check("default batches: announced number", count == len(batches))
    env.check("default batches: timestamps", same_list([v for t, d in batches for v in vals(t)],
                                                       [scaled(x, -8) for x in ts]))
    env.check("default batches: patterns", same_list([v for t, d in batches for v in vals(d)], ps))
    whole_t, whole_p = reader(pt, p["fmt"])(f, p["legacy"])
    env.check("stream equals whole file: timestamps", same_list([v for t, d in batches for v in vals(t)], vals(whole_t)))
    env.check("stream equals whole file: patterns", same_list([v for t, d in batches for v in vals(d)], vals(whole_p)))


def T05(tier):
    hs = []
    for fmt, leg in FORMATS:
        x = "x" if leg else ""
        for n in (0, 1, 2, 4, 5, 8) if tier == "quick" else range(0, 18):
            hs.append(Harness(f"stream_{fmt}{x}_n{n}", stream_body,
                              dict(fmt=fmt, legacy=leg, n=n, kinds=[("NS1", True), ("PS4", False)],
                                   sizes=[1, 2, 3, 4, 5, 6] if tier == "quick" else range(1, 14)),
                              bounds=f"{n} arbitrary words, batch sizes 1-6"))
        hs.append(Harness(f"default_{fmt}{x}", default_stream_body, dict(fmt=fmt, legacy=leg, n=3),
                          bounds="3 arbitrary words, default batch size"))
    return hs


# ------------------------------------------------------------------- T02, T03
def event_arrays(env, n, form):
    """Events as arrays of the given resolution; returns (t array, p array, T, P)."""
    T = [env.bits(f"t{i}", 54) for i in range(n)]
    P = [env.bits(f"p{i}", 4) for i in range(n)]
    res, kind, pd = form
    if kind == "float":
        t = env.array([scaled(x, -SHIFT[res]) for x in T], "longdouble")
    else:
        # integer data in the unit of `res`
        T = [(x >> SHIFT[res]) << SHIFT[res] for x in T]
        t = env.array([x >> SHIFT[res] for x in T], "uint64")
    return t, env.array(P, pd), T, P


FORMS = [("PS4", "int", "int64"), ("PS4", "float", "uint32"), ("NS1", "float", "uint32"), ("NS1", "int", "int64"),
         ("PS125", "float", "int64"), ("PS125", "int", "uint64")]


def write_body(env):
    pt, R = env.mod(PT), env.mod(CO).TSRES
    p = env.p
    for k, form in enumerate(p["forms"]):
        t, d, T, P = event_arrays(env, p["n"], form)
        res = getattr(R, form[0])
        words = [(a << 10) + b for a, b in zip(T, P)]
        for fmt, leg in FORMATS:
            tag = f"{fmt}{'x' if leg else ''} from {form[0]} {form[1]}"
            exp = encode(words, fmt, leg)
            f = env.path(f"out{k}{fmt}{leg}")
            getattr(pt, "write_" + fmt)(f, t, d, legacy=leg, resolution=res)
            got = env.read(f"out{k}{fmt}{leg}")
            env.check(f"write_{tag}: length", len(got) == len(exp))
            env.check(f"write_{tag}: bytes", same_list(got, exp))
            env.observe(tag, got)
            for cut in p["cuts"]:
                g = env.path(f"sout{k}{fmt}{leg}{cut}")
                parts = [(t[:cut], d[:cut]), (t[cut:], d[cut:])]
                getattr(pt, "swrite_" + fmt)(g, iter(parts), 2, legacy=leg, resolution=res, display=False)
                sg = env.read(f"sout{k}{fmt}{leg}{cut}")
                env.check(f"swrite_{tag} split {cut}: identical to the specification", len(sg) == len(exp) and same_list(sg, exp))


def T02(tier):
    hs = []
    for form in FORMS:
        for n in (1, 2, 6) if tier == "quick" else (1, 2, 3, 4, 6, 12):
            hs.append(Harness(f"write_{form[0]}_{form[1]}_n{n}", write_body,
                              dict(n=n, forms=[form], cuts=[0, 1, n] if n == 2 else [0, n]),
                              bounds=f"{n} events, 54-bit times, 4-bit patterns, batches split anywhere"))
    return hs


def round_body(env):
    pt, R = env.mod(PT), env.mod(CO).TSRES
    p = env.p
    form = p["form"]
    t, d, T, P = event_arrays(env, p["n"], form)
    for fmt, leg in FORMATS:
        f = env.path(f"f{fmt}{leg}")
        getattr(pt, "write_" + fmt)(f, t, d, legacy=leg, resolution=getattr(R, form[0]))
        for res, frac in (("PS4", False), (form[0], True), ("PS4", True)):
            t2, d2 = reader(pt, fmt)(f, legacy=leg, resolution=getattr(R, res), fractional=frac)
            tag = f"{fmt}{'x' if leg else ''} {form[0]} {form[1]} read as {res} {'fractional' if frac else 'integer'}"
            env.check(f"{tag}: times", is_times(t2, T, res, frac))
            env.check(f"{tag}: patterns", same_list(vals(d2), P))
            env.observe(tag, t2)


def T03(tier):
    return [Harness(f"roundtrip_{form[0]}_{form[1]}_n{n}", round_body, dict(n=n, form=form),
                    bounds=f"{n} events, 54-bit times, 4-bit patterns")
            for form in FORMS for n in ((1, 2, 6) if tier == "quick" else (1, 2, 3, 4, 6, 12))]


# ------------------------------------------------------------------------ T06
def filtered(ts, ps, pattern, mask, invert):
    """Documented selection: list of (keep?, time, resulting pattern)."""
    out = []
    for t, p in zip(ts, ps):
        if not mask:
            keep = EQ(p, pattern)
            if invert:
                keep = NOT(keep)
            out.append((keep, t, p))
        elif not invert:
            out.append((NOT(EQ(p & pattern, 0)), t, p & pattern))
        else:
            rest = p & (15 - pattern)
            out.append((OR(EQ(p, 0), NOT(EQ(rest, 0))), t, rest))
    return out


def settled(env, sel):
    """The kept elements (forks on undecided conditions; after the code ran
    they are mostly decided by the path)."""
    return [(t, p) for k, t, p in sel if bool(k)]


def pattern_body(env):
    pt = env.mod(PT)
    p = env.p
    n = p["n"]
    ps = [env.bits(f"p{i}", 4) for i in range(n)]
    pattern = env.bits("pattern", 4)
    arr = env.array(ps, p["dtype"])
    tarr = env.array(list(range(n)), "uint64")
    mask, got = pt.get_pattern_mask(arr, pattern, p["mask"], p["invert"])
    sel = filtered(list(range(n)), ps, pattern, p["mask"], p["invert"])
    env.check("mask length", len(mask) == n)
    env.check("selection", AND(*[IFF(m, k) for m, (k, _, _) in zip(vals(mask), sel)]))
    keep = settled(env, sel)
    env.check("kept events", same_list(vals(tarr[mask]), [t for t, _ in keep]))
    env.check("resulting patterns", same_list(vals(got), [q for _, q in keep]))
    env.check("input untouched", same_list(vals(arr), ps))
    env.observe("mask", mask)
    env.observe("patterns", list(vals(got)))


def T06(tier):
    hs = []
    for m in (False, True):
        for inv in (False, True):
            for dt in ("int64", "uint32") if tier == "quick" else ("int64", "uint32", "uint64", "uint8"):
                for n in (0, 1, 3) if tier == "quick" else (0, 1, 3, 5):
                    hs.append(Harness(f"pattern_m{int(m)}i{int(inv)}_{dt}_n{n}", pattern_body,
                                      dict(mask=m, invert=inv, dtype=dt, n=n),
                                      bounds=f"{n} events, all 4-bit patterns, all filter patterns 0-15"))
    return hs


# ------------------------------------------------------------------------ T07
# Bounds given in seconds are multiples of 2^-20 s below 2^12 s: the conversion
# start * 1e9 * resolution is then exact in double precision.
def seconds(env, name):
    k = env.bits(name, 32)
    return k, Flt(k, -20)


def time_inside(T, kstart, kend, res):
    """start <= t <= end, compared exactly in ns: t = T / 2^8 ns and
    k * 2^-20 s = k * 5^9 * 2^-11 ns."""
    t = Flt(T, -8)
    c = True
    if kstart is not None:
        c = AND(c, Flt(kstart * 1953125, -11) <= t)
    if kend is not None:
        c = AND(c, t <= Flt(kend * 1953125, -11))
    return c


def timing_body(env):
    pt, R = env.mod(PT), env.mod(CO).TSRES
    p = env.p
    n = p["n"]
    T = [env.bits(f"t{i}", 50) for i in range(n)]
    for a, b in zip(T, T[1:]):
        env.assume(a <= b)
    res, kind = p["form"]
    if kind == "float":
        arr = env.array([scaled(x, -SHIFT[res]) for x in T], "longdouble")
        Q = T
    elif kind == "double":
        arr = env.array([scaled(x, -SHIFT[res]) for x in T], "float64")
        Q = T
    else:
        arr = env.array([x >> SHIFT[res] for x in T], "uint64")
        Q = [(x >> SHIFT[res]) << SHIFT[res] for x in T]
    ks = ke = None
    kw = {}
    if "s" in p["which"]:
        ks, s = seconds(env, "start")
        kw["start"] = s if env.sym else float(env.real_value(s))
    if "e" in p["which"]:
        ke, e = seconds(env, "end")
        kw["end"] = e if env.sym else float(env.real_value(e))
    kw["resolution"] = getattr(R, res)
    mask = pt.get_timing_mask(arr, **kw)
    env.check("mask length", len(mask) == n)
    want = [time_inside(q, ks, ke, res) for q in Q]
    env.check("exactly the events inside the closed interval", AND(*[IFF(m, w) for m, w in zip(vals(mask), want)]))
    env.observe("mask", mask)


def T07(tier):
    hs = []
    for form in (("NS1", "float"), ("PS4", "int"), ("PS125", "int"), ("PS125", "float"), ("NS1", "int"), ("NS1", "double")):
        for which in ("s", "e", "se", ""):
            for n in (0, 1, 3) if tier == "quick" else (0, 1, 2, 4, 6):
                hs.append(Harness(f"timing_{form[0]}_{form[1]}_{which or 'none'}_n{n}", timing_body,
                                  dict(form=form, which=which, n=n),
                                  bounds=f"{n} sorted times below 2^50 units of 4 ps, bounds multiples of 2^-20 s below 4096 s"))
    return hs


# ------------------------------------------------------------------------ T08
def main_body(env):
    pt = env.mod(PT)
    p = env.p
    ws, ts, ps = words_of(env, p["n"])
    if p.get("time") is not None or p.get("sorted"):
        for a, b in zip(ts, ts[1:]):
            env.assume(a <= b)
        for t in ts:
            env.assume(t < (1 << 50))
    (fi, li), (fo, lo) = p["fi"], p["fo"]
    f = store(env, "in.dat", ws, fi, li)
    out = env.path("out.dat")
    argv = ["parse_timestamps", f"-A{fi[1]}"] + (["-X"] if li else [])
    if p.get("outopt", True):
        argv += [f"-a{fo[1]}"]
    argv += (["-x"] if lo else []) + ["-q"]
    if p.get("inmemory"):
        argv.append("--inmemory")
    sel = [(True, t, q) for t, q in zip(ts, ps)]
    if p.get("pattern"):
        m, inv = p["pattern"]
        pattern = env.bits("pattern", 4)
        argv += ["--pfilter-pattern", env.dec(pattern)] + (["--pfilter-mask"] if m else []) + (["--pfilter-invert"] if inv else [])
        sel = filtered(ts, ps, pattern, m, inv)
    if p.get("time"):
        ks = ke = None
        if "s" in p["time"]:
            ks, s = seconds(env, "start")
            argv += ["--tfilter-start", env.dec(s)]
        if "e" in p["time"]:
            ke, e = seconds(env, "end")
            argv += ["--tfilter-end", env.dec(e)]
        sel = [(AND(k, time_inside(t, ks, ke, "PS4")), t, q) for k, t, q in sel]
    env.main(pt, argv + [f, out])
    keep = settled(env, sel)
    exp = encode([(t << 10) + q for t, q in keep], fo, lo)
    got = env.read("out.dat")
    env.check("output file written", got is not None)
    env.check("output size", len(got) == len(exp))
    env.check("output events", same_list(got, exp))
    env.check("input file untouched", env.read("in.dat") is not None and len(env.read("in.dat")) == len(encode(ws, fi, li))
              and (same_list(env.read("in.dat"), encode(ws, fi, li))))
    env.observe("out", got)


def T08(tier):
    hs = []
    pats = [(False, False), (False, True), (True, False), (True, True)]
    for mem in (False, True):
        tag = "mem" if mem else "stream"
        for i, (fi, li) in enumerate(FORMATS):
            for j, (fo, lo) in enumerate(FORMATS):
                hs.append(Harness(f"{tag}_{fi}{'x' * li}_{fo}{'x' * lo}", main_body,
                                  dict(n=2, fi=(fi, li), fo=(fo, lo), inmemory=mem),
                                  bounds="2 arbitrary 64-bit event words"))
        for k, pat in enumerate(pats):
            fi, fo = FORMATS[k % 4], FORMATS[(k + 1) % 4]
            hs.append(Harness(f"{tag}_pattern{int(pat[0])}{int(pat[1])}", main_body,
                              dict(n=2, fi=fi, fo=fo, inmemory=mem, pattern=pat), bounds="2 events, all patterns"))
        for w in ("s", "e", "se"):
            hs.append(Harness(f"{tag}_time_{w}", main_body,
                              dict(n=2, fi=("a1", False), fo=("a1", False), inmemory=mem, time=w),
                              bounds="2 sorted events below 2^50, bounds multiples of 2^-20 s"))
        for pat in ((True, True), (False, False)) if tier == "quick" else pats:
            hs.append(Harness(f"{tag}_both_{int(pat[0])}{int(pat[1])}", main_body,
                              dict(n=2, fi=("a1", True), fo=("a2", False), inmemory=mem, pattern=pat, time="se"),
                              bounds="2 sorted events, pattern and time filter"))
        hs.append(Harness(f"{tag}_defaultout", main_body, dict(n=2, fi=("a2", False), fo=("a1", False), inmemory=mem, outopt=False),
                          bounds="2 arbitrary words, default output format"))
    return hs


# ------------------------------------------------------------------------ T09
def line(env, out, prefix):
    for l in out.splitlines():
        if l.strip().startswith(prefix):
            return l.split(":", 1)[1].strip()
    return None


def near(a, b, tol):
    """|a - b| <= tol for exact values (tol a float constant)."""
    d = a - b
    return AND(d <= tol, d >= -tol)


def printed(env, got, parts, exact):
    """The value printed in seconds is the exact one (ns) to within 0.6 ns.
    Values that are the correctly rounded products of double or extended
    precision are within that bound by the lemma harness 'seconds_lemma'."""
    if env.sym:
        for pin in (None, 64, 53):
            for p in (53, 64):
                xs = [x if pin is None else f_round(to_flt(x), pin) for x in parts]
                x = xs[0] if len(xs) == 1 else f_sub(xs[0], xs[1], p)
                for v in (f_mul(x, 1e-9, p), f_round(f_mul(x, 1e-9, p), 53)):
                    if isinstance(got, Flt) and got.e == v.e and same_term(got.m, v.m):
                        return True
    return near(got * 1e9, exact, 0.6)


def same_term(a, b):
    return a == b if isinstance(a, int) and isinstance(b, int) else \
        not isinstance(a, int) and not isinstance(b, int) and a.e.eq(b.e)


def lemma_body(env):
    """|x * 1e-9 * (1+d0)(1+d1)(1+d2)(1+d3) - x * 1e-9| < 0.6e-9 for
    |x| < 2^46 ns and relative rounding errors of double precision."""
    x = env.real("x", 0, 1 << 46)
    u = Fraction(1, 1 << 52)
    # (1+d0)(1+d1)(1+d2)(1+d3) is in [(1-u)^4, (1+u)^4]
    k = env.real("k", -5 * u, 5 * u)
    env.check("accumulated relative error", abs_le4(u))
    env.check("printed seconds are within 0.6 ns", AND(x * k <= Fraction(6, 10), x * k >= -Fraction(6, 10)))


def abs_le4(u):
    return (1 + u) ** 4 - 1 <= 5 * u and 1 - (1 - u) ** 4 <= 5 * u


def stats_body(env):
    pt = env.mod(PT)
    p = env.p
    n = p["n"]
    ws, ts, ps = words_of(env, n)
    for a, b in zip(ts, ts[1:]):
        env.assume(a <= b)
    if "quarter" in p:
        env.assume(EQ(ps[0] >> 2, p["quarter"]))
    fi, li = p["fi"]
    f = store(env, "in.dat", ws, fi, li)
    argv = ["parse_timestamps", f"-A{fi[1]}", "-p", "-q"] + (["-X"] if li else []) + (["--inmemory"] if p["inmemory"] else [])
    sel = [(True, t, q) for t, q in zip(ts, ps)]
    if p.get("pattern"):
        m, inv = p["pattern"]
        pattern = env.bits("pattern", 4)
        argv += ["--pfilter-pattern", env.dec(pattern)] + (["--pfilter-mask"] if m else []) + (["--pfilter-invert"] if inv else [])
        sel = filtered(ts, ps, pattern, m, inv)
    if p.get("time"):
        for t in ts:
            env.assume(t < (1 << 50))
        ks = ke = None
        if "s" in p["time"]:
            ks, s = seconds(env, "start")
            argv += ["--tfilter-start", env.dec(s)]
        if "e" in p["time"]:
            ke, e = seconds(env, "end")
            argv += ["--tfilter-end", env.dec(e)]
        sel = [(AND(k, time_inside(t, ks, ke, "PS4")), t, q) for k, t, q in sel]
    r = env.main(pt, argv + [f], expect=(SystemExit,))
    keep = settled(env, sel)
    num = lambda pre, kind="i": env.number(line(env, r.out, pre), kind)
    env.check("total events", EQ(num("Total events"), len(keep)))
    if keep:
        bit = lambda q, k: EQ((q >> k) & 1, 1)
        cnt = lambda cs: sum((ITE(c, 1, 0) for c in cs), 0)
        for k in range(4):
            env.check(f"channel {k + 1} count", EQ(num(f"Channel {k + 1}"), cnt([bit(q, k) for _, q in keep])))
        single = lambda q: OR(*[EQ(q, v) for v in (0, 1, 2, 4, 8)])
        env.check("multi-channel count", EQ(num("Multi-channel"), cnt([NOT(single(q)) for _, q in keep])))
        env.check("no-channel count", EQ(num("No channel"), cnt([EQ(q, 0) for _, q in keep])))
        first, last = keep[0][0], keep[-1][0]
        env.check("first time", printed(env, num("~ start", "f"), [Flt(first, -8)], Flt(first, -8)))
        env.check("last time", printed(env, num("~ end", "f"), [Flt(last, -8)], Flt(last, -8)))
        env.check("duration", printed(env, num("Duration", "f"), [Flt(last, -8), Flt(first, -8)], Flt(last - first, -8)))
        pl = line(env, r.out, "Detection patterns").strip("[]")
        got = [env.number(x.strip()) for x in pl.split(",")]
        env.check("pattern set", AND(len(got) >= 1, *[OR(*[EQ(g, q) for g in got]) for _, q in keep],
                                     *[OR(*[EQ(g, q) for _, q in keep]) for g in got],
                                     *[g < h for g, h in zip(got, got[1:])]))
    env.reach(f"events {len(keep)}")


def batch_stats_body(env):
    """The streaming report from several batches equals that of one batch."""
    pt, R = env.mod(PT), env.mod(CO).TSRES
    p = env.p
    n = p["n"]
    T = [env.bits(f"t{i}", 54) for i in range(n)]
    P = [env.bits(f"p{i}", 4) for i in range(n)]
    for a, b in zip(T, T[1:]):
        env.assume(a <= b)
    t, d = env.array(T, "uint64"), env.array(P, "uint32")
    import io
    env.assume(EQ(P[0] >> 2, p["quarter"]))
    cut = p["cut"]
    outs = []
    for parts in ([(t, d)], [(t[:cut], d[:cut]), (t[cut:], d[cut:])]):
        class M:
            @staticmethod
            def main():
                pt.print_statistics_stream("x", iter(parts), len(parts), resolution=R.PS4, display=False)
        outs.append(env.main(M, ["x"]).out)
    env.check("same report for any batching", [x.split() for x in outs[0].splitlines()] == [x.split() for x in outs[1].splitlines()])
    env.observe("lines", len(outs[0].splitlines()))


def T09(tier):
    hs = []
    for mem in (False, True):
        tag = "mem" if mem else "stream"
        for fi in FORMATS if tier == "thorough" else [("a1", True), ("a2", False), ("a0", False)]:
            hs.append(Harness(f"{tag}_{fi[0]}_n1", stats_body, dict(n=1, fi=fi, inmemory=mem), witness=40,
                              bounds="1 arbitrary event word"))
        for fi in FORMATS if tier == "thorough" else [FORMATS[mem]]:
            for k in range(4):
                hs.append(Harness(f"{tag}_{fi[0]}_n2_{k}", stats_body, dict(n=2, fi=fi, inmemory=mem, quarter=k), witness=20,
                                  bounds="2 arbitrary sorted event words (first pattern's upper bits fixed per harness)"))
        for pat in ((False, False), (True, True), (True, False), (False, True)):
            hs.append(Harness(f"{tag}_filter{int(pat[0])}{int(pat[1])}", stats_body,
                              dict(n=1, fi=("a1", False), inmemory=mem, pattern=pat), witness=40, bounds="1 event, all patterns and filters"))
        for w in ("s", "e", "se"):
            hs.append(Harness(f"{tag}_time_{w}", stats_body, dict(n=1, fi=("a1", False), inmemory=mem, time=w), witness=40,
                              bounds="1 event below 2^50, bounds multiples of 2^-20 s"))
        hs.append(Harness(f"{tag}_both", stats_body, dict(n=1, fi=("a2", False), inmemory=mem, time="se", pattern=(True, False)), witness=40,
                          bounds="1 event below 2^50, bounds multiples of 2^-20 s, all patterns"))
        hs.append(Harness(f"{tag}_empty", stats_body, dict(n=0, fi=("a1", False), inmemory=mem), bounds="empty file"))
    hs.append(Harness("seconds_lemma", lemma_body, {}, bounds="all times below 2^46 ns"))
    for cut in (0, 1, 2):
        for k in range(4):
            hs.append(Harness(f"batching_n2_cut{cut}_{k}", batch_stats_body, dict(n=2, cut=cut, quarter=k), witness=10,
                              bounds="2 events, every split into two batches"))
    return hs


PROPS = {"T01": T01, "T02": T02, "T03": T03, "T04": T04, "T05": T05, "T06": T06, "T07": T07, "T08": T08, "T09": T09}

ASSUME = ["numpy primitives behave as re-implemented in vlib/symnp.py (every path's witness is replayed on the real numpy)",
          "long double is x87 80-bit, as on this platform",
          "files hold whole events; text files use lower-case digits and one number per line"]


def check(pid, tier, seed, only):
    return report.check(pid, PROPS[pid](tier), tier, seed, only, budget=100 if tier == "quick" else 600, assumptions=ASSUME)


def replay(v):
    return report.replay(v, PROPS[v["property"]](v.get("tier", "quick")))
