"""C01-C10: the stream corrector freqcd (C), executed from its LLVM IR."""
import itertools

from vlib import cbuild, csym, report, sym
from vlib.csym import NumTok, from_sym
from vlib.harness import AND, EQ, IFF, IMPL, ITE, NOT, OR, Harness, Hang
from vlib.sym import SymInt, Unsupported, mkbool, mkint, z3

_Harness = Harness


def Harness(*a, **k):
    return _Harness(*a, products=True, **k)


FMAX = (1 << 21) - 1
DMAX = 1220703
M54 = (1 << 54) - 1
M64 = (1 << 64) - 1


# ------------------------------------------------------------------ execution
def text(env, *parts):
    """Argument bytes; integers of the harness become their decimal text."""
    out = []
    for p in parts:
        if isinstance(p, SymInt):
            out.append(NumTok(p))
        elif isinstance(p, int):
            out += list(str(p).encode())
        elif isinstance(p, list):
            out += p
        else:
            out += list(p.encode())
    return out


def run(env, args, rounds, inp, freq=(), files=None, wfault=None, mfault=None, safety=False):
    """Runs freqcd; args: list of byte lists or strings."""
    argv = [list(b"freqcd")] + [a if isinstance(a, list) else list(a.encode()) for a in args]
    if env.sym:
        io = csym.IO(rounds, inp, freq, files, wfault, mfault)
        m = csym.Machine(cbuild.module(), io)
        ub = None
        status = None
        try:
            status = m.run_main(argv)
        except csym.UB as e:
            if not safety:
                raise Unsupported(f"undefined behaviour: {e}")
            ub = str(e)
        finally:
            env.cfuncs = getattr(env, "cfuncs", set()) | {f"freqcd.c:{f}" for f in m.functions_called}
        return cbuild.Outcome(io.out, status, io.log, ub, m.obligations)
    kinds = ("asan", "msan") if safety else ("plain",)
    o = None
    for k in kinds:
        o = cbuild.run_binary(k, argv, rounds, inp, freq, files, wfault, mfault)
        if o.hang:
            raise Hang()
        if o.ub and safety:
            return o
    return o


# -------------------------------------------------- 64-bit words, both worlds
def b64(v, w=64):
    """64-bit pattern: int or z3 term."""
    return from_sym(v, w)


def join(bs):
    """Little-endian bytes (harness values) -> pattern."""
    if all(isinstance(b, int) for b in bs):
        return int.from_bytes(bytes(bs), "little")
    return csym.Machine.tidy(z3.Concat(*[csym.bv(from_sym(b, 8), 8) for b in reversed(bs)]))


def arith(sym_f, conc_f, *args):
    if all(isinstance(a, int) for a in args):
        return conc_f(*args)
    return csym.Machine.tidy(sym_f(*[csym.bv(a, 64) for a in args]))


def add(a, b): return arith(lambda x, y: x + y, lambda x, y: (x + y) & M64, a, b)
def sub(a, b): return arith(lambda x, y: x - y, lambda x, y: (x - y) & M64, a, b)
def low54(a): return arith(lambda x: x & M54, lambda x: x & M54, a)


def same(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    a, b = csym.bv(a, 64), csym.bv(b, 64)
    return True if a.eq(b) else mkbool(z3.simplify(a == b))


def le(v, n=8): return [(v >> (8 * i)) & 0xFF for i in range(n)]


def event(t, d, legacy=False):
    """File bytes of an event."""
    if isinstance(t, int) and isinstance(d, int):
        bs = le((t << 10) + d)
    else:
        w = z3.Concat(csym.bv(from_sym(t, 54), 54), csym.bv(from_sym(d, 10), 10))
        bs = [csym.to_sym(csym.Machine.tidy(z3.Extract(8 * i + 7, 8 * i, w)), 8) for i in range(8)]
    return bs[4:] + bs[:4] if legacy else bs


def words(out, legacy=False):
    """Output bytes -> list of 64-bit patterns (normal word order)."""
    r = []
    for i in range(0, len(out) - 7, 8):
        e = out[i:i + 8]
        r.append(join(e[4:] + e[:4] if legacy else e))
    return r


def correction(delta, f):
    """floor(floor(delta/2^12) * f / 2^22) on 64-bit patterns."""
    F = from_sym(f, 32)
    return arith(lambda d, x: (z3.LShR(d, 12) * x) >> 22,
                 lambda d, x: ((((d >> 12) * csym.signed(x, 64)) >> 22) & M64),
                 delta, F if isinstance(F, int) and F < 1 << 31 else
                 (F | (M64 ^ 0xFFFFFFFF)) if isinstance(F, int) else csym.Machine.tidy(z3.SignExt(32, F)))


def expected(ts, blocks, fs):
    """Ideal integer evaluation: per block the correction counts from the last
    event of the previous block and earlier corrections stay accumulated."""
    out = []
    acc, ref, k = 0, b64(ts[0]), 0
    for n, f in zip(blocks, fs):
        c = 0
        for _ in range(n):
            t = b64(ts[k])
            c = correction(low54(sub(t, ref)), f)
            out.append(add(add(t, c), acc))
            k += 1
        if n:
            acc = add(acc, c)
            ref = b64(ts[k - 1])
    return out


def close(got, t, total, f, nblocks):
    """|got - (t + total*f/2^34)| <= 1.5*nblocks units, got modulo 2^54."""
    if all(isinstance(x, int) for x in (got, t, total, f)):
        d = (got - t) & M54
        d = d - (1 << 54) if d >> 53 else d
        return abs((d << 34) - total * f) * 2 <= (3 * nblocks) << 34
    W = 128
    x = z3.Extract(53, 0, csym.bv(got, 64)) - z3.Extract(53, 0, csym.bv(b64(t), 64))
    e = (z3.SignExt(W - 54, x) << 34) - csym.bv(from_sym(total, W), W) * csym.bv(from_sym(f, W), W)
    lim = (3 * nblocks) << 33
    return mkbool(z3.And(e <= lim, e >= -lim))


# ---------------------------------------------------------------- time series
def series(env, n, span=54, roll=False, d=10):
    """n 54-bit times and their detector bits; elapsed time since the first one
    never decreases (and without roll-over neither does the time itself)."""
    ts = [env.bits(f"t{i}", 54) for i in range(n)]
    ds = [env.bits(f"d{i}", d) for i in range(n)]
    for a, b in zip(ts, ts[1:]):
        env.assume(elapsed(ts, a) <= elapsed(ts, b) if roll else a <= b)
    if n > 1 and span < 54:
        env.assume(elapsed(ts, ts[-1]) < 1 << span)
    return ts, ds


def elapsed(ts, t):
    return (t - ts[0]) & M54


def wrap(t): return t & M54


def fsetting(env, kind):
    if kind == "sym":
        return env.int("f", -FMAX, FMAX)
    return kind


def farg(env, f): return ["-f", text(env, f)]


# ------------------------------------------------------------------------ C01
def c01_body(env):
    p = env.p
    blocks = p["blocks"]
    n = sum(blocks)
    f = fsetting(env, p["f"])
    leg = p.get("legacy", False)
    ts, ds = series(env, n, p.get("span", 54), p.get("roll", False))
    inp = sum([event(t, d, leg) for t, d in zip(ts, ds)], [])
    o = run(env, (["-x"] if leg else []) + (p["args"] if "args" in p else farg(env, f)), [dict(i=8 * b) for b in blocks], inp)
    env.check("every event comes out", len(o.out) == 8 * n)
    ws = words(o.out, leg)
    ref = expected(ts, blocks, [f] * len(blocks))
    nb = 0
    k = 0
    for b in blocks:
        nb += 1
        for _ in range(b):
            got, e = ws[k], word(ref[k], ds[k])
            env.check(f"event {k}: timestamp within {nb} x 1.5 units of t + (t-t0)*f/2^34",
                      lazy_or(same(got, e), lambda: close(csym_shr10(got), ts[k], elapsed(ts, ts[k]), f, nb)))
            if p.get("bits"):
                env.check(f"event {k}: detector bits", same(lowbits(got), b64(ds[k])))
            k += 1
    env.check("ends normally", o.status == 0)
    env.observe("out", o.out)


def lazy_or(c, f):
    return True if c is True else OR(c, f())


def word(ts, d):
    """Event word of a 64-bit time pattern."""
    if isinstance(ts, int) and isinstance(d, int):
        return ((ts & M54) << 10) | d
    return csym.Machine.tidy(z3.Concat(z3.Extract(53, 0, csym.bv(ts, 64)), csym.bv(from_sym(d, 10), 10)))


def shl10(a): return arith(lambda x: x << 10, lambda x: (x << 10) & M64, a)
def csym_shr10(a): return arith(lambda x: z3.LShR(x, 10), lambda x: x >> 10, a)
def lowbits(a): return arith(lambda x: x & 1023, lambda x: x & 1023, a)


def zero_body(env):
    """Offset zero (or none given): output equals input."""
    p = env.p
    n = sum(p["blocks"])
    inp = [env.bits(f"b{i}", 8) for i in range(8 * n)]
    o = run(env, p["args"], [dict(i=8 * b) for b in p["blocks"]], inp)
    env.check("output equals input", AND(len(o.out) == len(inp), *[EQ(a, b) for a, b in zip(o.out, inp)]))
    env.check("ends normally", o.status == 0)
    env.observe("out", o.out)


def lemma_body(env):
    """The integer evaluation is within 1.5 units: with D = 4096 q + r and
    q f = 2^22 c + s, c - D f / 2^34 = -(s/2^22) - r f/2^34."""
    f = env.int("f", -FMAX, FMAX)
    r = env.int("r", 0, 4095)
    s = env.int("s", 0, (1 << 22) - 1)
    err = -(s << 12) - r * f                 # units of 2^-34
    env.check("rounding error of one correction is within 1.5 units", AND(err * 2 <= 3 << 34, err * 2 >= -(3 << 34)))


def long_body(env):
    """More events than the buffers hold; the first and the last ones symbolic."""
    p = env.p
    n, rounds = p["n"], p["rounds"]
    f = fsetting(env, p["f"])
    leg = p.get("legacy", False)
    base = 1 << 45
    ts = [env.bits("t0", 45)] + [base + (i << 20) for i in range(1, n - 1)] + [env.bits("t1", 54)]
    env.assume(ts[-1] >= ts[-2])
    ds = [env.bits("d0", 10)] + [(i * 37) & 1023 for i in range(1, n - 1)] + [env.bits("dl", 10)]
    inp = sum([event(t, d, leg) for t, d in zip(ts, ds)], [])
    sizes = []
    left = 8 * n
    # reads return at most what the program asked for: reconstruct the blocks
    o = run(env, (["-x"] if leg else []) + farg(env, f), [dict(i=r) for r in rounds] + [dict()] * p.get("idle", 3), inp)
    env.check("every event comes out once", len(o.out) == 8 * (sum(rounds) // 8))
    reads = [x[2] for x in o.log if x[0] == "read" and x[1] == "in" and x[2] > 0]
    blocks, have = [], 0
    for r in reads:
        blocks.append((have + r) // 8)
        have = (have + r) % 8
    m = len(o.out) // 8
    ws = words(o.out, leg)
    ref = expected(ts, blocks, [f] * len(blocks))
    k = 0
    for nb, b in enumerate(blocks, 1):
        for _ in range(b):
            if k < m and (k in (0, 1, 2, m - 2, m - 1) or k % 97 == 0 or 1020 <= k <= 1030):
                got = ws[k]
                env.check(f"event {k}: timestamp", lazy_or(same(got, word(ref[k], ds[k])),
                                                          lambda: close(csym_shr10(got), ts[k], ts[k] - ts[0], f, nb)))
                env.check(f"event {k}: detector bits", same(lowbits(got), b64(ds[k])))
            k += 1
    env.check("ends normally", o.status == 0)
    env.observe("size", len(o.out))


FVALUES = [1, -1, FMAX, -FMAX, 12345, -1000003]


def C01(tier):
    hs = [Harness("lemma", lemma_body, {}, bounds="all offsets and remainders")]
    shapes = [(1,), (3,), (1, 2), (2, 1), (1, 1, 1)]
    if tier == "thorough":
        shapes += [(5,), (2, 2, 2), (1, 3, 1), (1, 1, 1, 1, 1), (8,), (4, 4)]
    for sh in shapes:
        hs.append(Harness("sym_" + "_".join(map(str, sh)), c01_body, dict(blocks=sh, f="sym"),
                          bounds=f"{sum(sh)} time-ordered events in {len(sh)} reads, any 54-bit times, any offset below 2^21"))
    for f in FVALUES if tier == "quick" else FVALUES + [2, -2, 1 << 20, -(1 << 20), 999999, -77, FMAX - 1]:
        hs.append(Harness(f"f{f}", c01_body, dict(blocks=(1, 2), f=f), bounds="3 events in 2 reads, any 54-bit times"))
    hs.append(Harness("legacy", c01_body, dict(blocks=(2, 1), f="sym", legacy=True), bounds="legacy word order, 3 events"))
    hs.append(Harness("decimal", c01_body, dict(blocks=(2, 1), f=-1717986, args=["-df", "-1000000"]), bounds="-1000000 in decimal mode, 3 events"))
    hs.append(Harness("default", zero_body, dict(blocks=(2, 1), args=[]), bounds="any 24 bytes"))
    hs.append(Harness("zero", zero_body, dict(blocks=(1, 3), args=["-f", "0"]), bounds="any 32 bytes"))
    hs.append(Harness("zero_legacy", zero_body, dict(blocks=(2, 2), args=["-x", "-f", "0"]), bounds="any 32 bytes"))
    hs.append(Harness("long_1100", long_body, dict(n=1100, rounds=[8800], f="sym"), path_timeout=100,
                      bounds="1100 events available at once; first and last events and offset symbolic"))
    return hs


# ------------------------------------------------------------------------ C02
def c02_body(env):
    p = env.p
    blocks = p["blocks"]
    n = sum(blocks)
    f = fsetting(env, p["f"])
    ws = [(env.bits(f"t{i}", 54), env.bits(f"d{i}", 10)) for i in range(n)]
    tail = [env.bits(f"tail{i}", 8) for i in range(p.get("tail", 0))]
    rounds = [dict(i=8 * b) for b in blocks]
    if tail:
        rounds[-1] = dict(i=8 * blocks[-1] + len(tail))
    a = run(env, farg(env, f), rounds, sum([event(t, d) for t, d in ws], []) + tail)
    b = run(env, ["-x"] + farg(env, f), rounds, sum([event(t, d, True) for t, d in ws], []) + tail)
    env.check("one output event per input event", len(a.out) == 8 * n)
    env.check("one output event per input event (legacy)", len(b.out) == 8 * n)
    for k, (x, y) in enumerate(zip(words(a.out), words(b.out, True))):
        env.check(f"event {k}: detector bits", same(lowbits(x), b64(ws[k][1])))
        env.check(f"event {k}: legacy output is the word-swapped output", same(x, y))
    if p.get("first"):
        env.check("first event unchanged", same(words(a.out)[0], b64((ws[0][0] << 10) + ws[0][1])))
    env.check("ends normally", AND(a.status == 0, b.status == 0))
    env.observe("out", a.out + b.out)


def order_body(env):
    """Order: each event's identity is carried in its detector bits."""
    p = env.p
    n = p["n"]
    f = fsetting(env, p["f"])
    t0 = env.bits("t0", 53)
    tags = [env.bits(f"tag{i}", 10) for i in range(p["tags"])]
    ds = [tags[i * p["tags"] // n] if i % (n // p["tags"]) == 0 else (7 * i) & 1023 for i in range(n)]
    inp = sum([event(t0 + (i << 12), d, p["legacy"]) for i, d in enumerate(ds)], [])
    o = run(env, (["-x"] if p["legacy"] else []) + farg(env, f), [dict(i=r) for r in p["rounds"]] + [dict()] * 4, inp)
    env.check("number of output events", len(o.out) == 8 * n)
    env.check("detector bits of every event, in order",
              AND(*[same(lowbits(w), b64(d)) for w, d in zip(words(o.out, p["legacy"]), ds)]))
    env.check("ends normally", o.status == 0)
    env.observe("size", len(o.out))


def C02(tier):
    hs = []
    for sh in [(1,), (2,), (1, 2), (3, 1)] + ([(1, 1, 1, 1), (4, 4), (8,)] if tier == "thorough" else []):
        hs.append(Harness("words_" + "_".join(map(str, sh)), c02_body, dict(blocks=sh, f="sym", first=True),
                          bounds=f"{sum(sh)} arbitrary event words (any order), any offset"))
    for tail in (1, 4, 7) if tier == "quick" else range(1, 8):
        hs.append(Harness(f"tail{tail}", c02_body, dict(blocks=(2,), f="sym", tail=tail),
                          bounds=f"2 events and {tail} bytes of an incomplete one"))
    for n, rounds in ((1024, [8192]), (1025, [8200]), (2060, [8 * 2060]), (1024, [8000, 192])):
        for leg in (False, True) if tier == "thorough" or n == 1025 else (False,):
            hs.append(Harness(f"order_{n}_{len(rounds)}{'x' * leg}", order_body,
                              dict(n=n, tags=4, rounds=rounds, f=99999, legacy=leg), path_timeout=200,
                              bounds=f"{n} events, tags of 4 of them symbolic"))
    return hs


# ------------------------------------------------------------------------ C03
def c03_body(env):
    p = env.p
    n, tail = p["n"], p["tail"]
    f = fsetting(env, p["f"])
    ts, ds = series(env, n, 50)
    inp = sum([event(t, d, p["legacy"]) for t, d in zip(ts, ds)], []) + [env.bits(f"x{i}", 8) for i in range(tail)]
    total = len(inp)
    lo, hi = p.get("first", (0, total))
    cuts = [env.pick("cut1", list(range(lo, hi + 1)))]
    for k in range(1, p["cuts"]):
        cuts.append(env.pick(f"cut{k + 1}", list(range(cuts[-1], total + 1))))
    at = cuts + [total]
    sizes = [b - a for a, b in zip([0] + at, at)]
    upd = p.get("updates") or [None] * len(sizes)
    lines = [u for u in upd]
    freq = []
    rounds = []
    for s, u in zip(sizes, lines):
        r = dict(i=s)
        if u is not None:
            tx = list(f"{u}\n".encode())
            freq += tx
            r["q"] = len(tx)
        rounds.append(r)
    # the same complete events, each in the round that completed it
    whole, seen = [], 0
    for s, r in zip(sizes, rounds):
        done = (seen + s) // 8 - seen // 8
        seen += s
        whole.append(dict(r, i=8 * done))
    args = (["-x"] if p["legacy"] else []) + farg(env, f) + (["-F", "fq"] if freq else [])
    files = {"fq": "fq"} if freq else None
    a = run(env, args, rounds, inp, freq, files)
    b = run(env, args, whole, inp[:8 * n], freq, files)
    env.check("same number of events", AND(len(a.out) == 8 * n, len(b.out) == 8 * n))
    for k, (x, y) in enumerate(zip(words(a.out), words(b.out))):
        env.check(f"event {k}: same output however the stream is cut", same(x, y))
    env.check("nothing is emitted before its event is complete", early(a.log, 8 * n))
    env.check("ends normally", AND(a.status == 0, b.status == 0))
    env.observe("out", a.out)


def early(log, n):
    got = put = 0
    for x in log:
        if x[0] == "read" and x[1] == "in" and x[2] > 0:
            got += x[2]
        if x[0] == "write" and x[2] > 0:
            put += x[2]
            if put > got // 8 * 8:
                return False
    return True


def trickle_body(env):
    """Every read brings the same small number of bytes, with idle rounds."""
    p = env.p
    n, step = p["n"], p["step"]
    f = fsetting(env, "sym")
    ts, ds = series(env, n, 50)
    inp = sum([event(t, d) for t, d in zip(ts, ds)], [])
    rounds, whole, seen = [], [], 0
    while seen < len(inp):
        s = min(step, len(inp) - seen)
        rounds.append(dict(i=s))
        whole.append(dict(i=8 * ((seen + s) // 8 - seen // 8)))
        seen += s
        rounds += [dict()] * p["idle"]
        whole += [dict()] * p["idle"]
    a = run(env, farg(env, f), rounds, inp)
    b = run(env, farg(env, f), whole, inp)
    env.check("number of events", len(a.out) == 8 * n)
    for k, (x, y) in enumerate(zip(words(a.out), words(b.out))):
        env.check(f"event {k}: same output however the stream is cut", same(x, y))
    ref = expected(ts, [r["i"] // 8 for r in whole if r], [f] * len(whole))
    for k, x in enumerate(words(a.out)):
        nb = k + 1
        env.check(f"event {k}: timestamp", lazy_or(same(x, word(ref[k], ds[k])),
                                                  lambda: close(csym_shr10(x), ts[k], ts[k] - ts[0], f, nb)))
    env.check("ends normally", AND(a.status == 0, b.status == 0))
    env.observe("out", a.out)


def C03(tier):
    hs = []
    step = 3
    for lo in range(0, 17, step):
        hs.append(Harness(f"cuts2_{lo}", c03_body, dict(n=2, tail=0, cuts=2, f="sym", legacy=False, first=(lo, min(lo + step - 1, 16))),
                          witness=12, bounds="2 events, every way of cutting 16 bytes into 3 reads (empty reads are idle rounds)"))
    for lo in range(0, 20, 5):
        hs.append(Harness(f"tail_{lo}", c03_body, dict(n=2, tail=5, cuts=1, f="sym", legacy=False, first=(lo, lo + 4)),
                          witness=12, bounds="2 events and 5 further bytes, every cut"))
    for lo in range(0, 17, 4):
        hs.append(Harness(f"updates_{lo}", c03_body, dict(n=2, tail=0, cuts=2, f=-54321, legacy=True, updates=[1000, None, -77],
                                                          first=(lo, min(lo + 3, 16))),
                          witness=12, bounds="2 events, 3 reads, offset updated in the first round"))
    if tier == "thorough":
        for lo in range(0, 25):
            hs.append(Harness(f"cuts3_{lo}", c03_body, dict(n=3, tail=0, cuts=3, f="sym", legacy=False, first=(lo, lo)),
                              witness=10, max_paths=4000, bounds="3 events, every way of cutting 24 bytes into 4 reads"))
            hs.append(Harness(f"updates3_{lo}", c03_body, dict(n=3, tail=0, cuts=2, f=-54321, legacy=True, updates=[1000, FMAX, -77],
                                                               first=(lo, lo)),
                              witness=10, bounds="3 events, 3 reads, offset updated in every round"))
    for st in (1, 3, 5, 7) if tier == "quick" else range(1, 14):
        for idle in (0, 1):
            hs.append(Harness(f"trickle_{st}_{idle}", trickle_body, dict(n=3, step=st, idle=idle),
                              bounds=f"3 events in reads of {st} bytes, {idle} idle rounds between"))
    hs.append(Harness("long_odd", long_body, dict(n=1030, rounds=[8195, 40, 5], f="sym", idle=4), path_timeout=200,
                      bounds="1030 events, reads ending inside events at a full buffer"))
    return hs


# ------------------------------------------------------------------------ C04
PROBE = 1 << 34        # elapsed time for which the correction equals f


def probes(env, nrounds, base=1 << 50, legacy=False):
    """One event per round, 2^34 units apart; first one in round 0."""
    ds = [env.bits(f"d{i}", 10) for i in range(nrounds)]
    return [event(base + i * PROBE, d, legacy) for i, d in enumerate(ds)], [base + i * PROBE for i in range(nrounds)], ds


def seen_offsets(out, ts, legacy=False):
    """Offsets in force, as 64-bit patterns, from the probe events."""
    ws = [csym_shr10(w) for w in words(out, legacy)]
    res, prev = [], 0
    for w, t in zip(ws, ts):
        c = sub(w, t)
        res.append(sub(c, prev))
        prev = c
    return res


def signed64(v): return from_sym(v, 64)


def deliver(env, chunks):
    """Rounds for a frequency text given as list of (bytes | None | "c" | "e")."""
    rounds, freq = [], []
    for c in chunks:
        r = dict(i=8)
        if isinstance(c, list):
            freq += c
            if c:
                r["q"] = len(c)
        elif c is not None:
            r["q"] = c
        rounds.append(r)
    return rounds, freq


def line_value(env, name, digits, neg, rest=None, free=None):
    """Symbolic decimal digits; returns (bytes, value). With rest, only the
    first and last two digits are symbolic, the others are those of rest."""
    v, bs = 0, [45] if neg else []
    for i in range(digits):
        if rest and (2 <= i < digits - 2 if free is None else i not in free):
            d = int(rest[i % len(rest)])
        else:
            d = env.int(f"{name}{i}", 0, 9)
        bs.append(d + 48)
        v = v * 10 + d
    return bs, (-v if neg else v)


def valid(v): return AND(v <= FMAX, v >= -FMAX)


def check_probes(env, o, ts, fs, legacy=False):
    env.check("every event comes out", len(o.out) == 8 * len(ts))
    got = seen_offsets(o.out, ts, legacy)
    for k in range(1, len(got)):
        env.check(f"offset applied in round {k}", same(got[k], signed64(fs[k])))
    env.check("ends normally", o.status == 0)


def c04_lines_body(env):
    """One line per round."""
    p = env.p
    leg = any(a.startswith("-x") for a in p.get("args", []))
    f0 = p["f0"] if "f0" in p else env.int("f0", -FMAX, FMAX)
    chunks, fs, cur = [], [f0], f0
    for k, (digits, neg, *rest) in enumerate(p["lines"]):
        bs, v = line_value(env, f"l{k}_", digits, neg, *rest)
        chunks.append(bs + [10])
        cur = ITE(valid(v), v, cur)
        fs.append(cur)
    chunks.append(None)
    ev, ts, ds = probes(env, len(chunks), legacy=leg)
    rounds, freq = deliver(env, chunks)
    args = p["args"] if "f0" in p else farg(env, f0) + p.get("args", [])
    o = run(env, args + ["-F", "fq"], rounds, sum(ev, []), freq, {"fq": "fq"})
    check_probes(env, o, ts, fs, leg)
    env.observe("out", o.out)


LONGMAX = "9223372036854775807"


def c04_range_body(env):
    """A line holding any integer of a range, then one of three digits."""
    f0 = env.int("f0", -FMAX, FMAX)
    v = env.int("v", *env.p["range"])
    b2, v2 = line_value(env, "w", 3, False)
    chunks = [text(env, v) + [10], b2 + [10], None]
    cur = ITE(valid(v), v, f0)
    ev, ts, ds = probes(env, 3)
    rounds, freq = deliver(env, chunks)
    o = run(env, farg(env, f0) + ["-F", "fq"], rounds, sum(ev, []), freq, {"fq": "fq"})
    check_probes(env, o, ts, [f0, cur, v2])
    env.observe("out", o.out)


def c04_wild_body(env):
    """A line of digits with arbitrary bytes inside."""
    p = env.p
    n, where = p["n"], p["where"]
    f0 = env.int("f0", -FMAX, FMAX)
    bs, ok = [], True
    v = 0
    for i in range(n):
        if i in where:
            c = env.bits(f"c{i}", 8)
            env.assume(NOT(EQ(c, 10)))
            if i == 0:
                # leading blanks and a plus sign are left open; a minus is a sign
                env.assume(NOT(OR(EQ(c, 32), AND(c >= 9, c <= 13), EQ(c, 43), EQ(c, 45))))
            isd = AND(c >= 48, c <= 57)
            ok = AND(ok, isd)
            d = ITE(isd, c - 48, 0)
        else:
            d = env.int(f"c{i}", 0, 9)
            c = d + 48
        v = v * 10 + d
        bs.append(c)
    cur = ITE(AND(ok, valid(v)), v, f0)
    follow = p.get("follow")
    chunks = [bs + [10] + (list(f"{follow}\n".encode()) if follow is not None else []), None]
    if follow is not None:
        cur = follow
    ev, ts, ds = probes(env, 2)
    rounds, freq = deliver(env, chunks)
    o = run(env, farg(env, f0) + ["-F", "fq"], rounds, sum(ev, []), freq, {"fq": "fq"})
    check_probes(env, o, ts, [f0, cur])
    env.observe("out", o.out)


def c04_cut_body(env):
    """Several lines cut into reads at arbitrary places."""
    p = env.p
    f0 = env.int("f0", -FMAX, FMAX)
    data, marks = [], []
    vals = []
    for k, spec in enumerate(p["lines"]):
        if isinstance(spec, str):
            bs, v = list(spec.encode()), None
        else:
            bs, v = line_value(env, f"l{k}_", *spec)
        data += bs + [10]
        marks.append(len(data))
        vals.append(v)
    data += p.get("rest", [])
    total = len(data)
    cuts = [env.pick("cut1", list(range(0, total + 1)))]
    for k in range(1, p["cuts"]):
        cuts.append(env.pick(f"cut{k + 1}", list(range(cuts[-1], total + 1))))
    at = cuts + [total]
    chunks = [data[a:b] for a, b in zip([0] + at, at)] + [p.get("end"), None, None]
    fs, cur = [f0], f0
    have = 0
    for k, c in enumerate(chunks[:-1]):
        if isinstance(c, list):
            for m, v in zip(marks, vals):
                if have < m <= have + len(c) and v is not None:
                    cur = ITE(valid(v), v, cur)
            have += len(c)
        fs.append(cur)
    ev, ts, ds = probes(env, len(chunks))
    rounds, freq = deliver(env, chunks)
    if p.get("idle"):
        # frequency data arrives while no input is available
        rounds = [x for r in rounds for x in (dict(i=r["i"]), {k: v for k, v in r.items() if k != "i"})]
    o = run(env, farg(env, f0) + ["-F", "fq"], rounds, sum(ev, []), freq, {"fq": "fq"})
    check_probes(env, o, ts, fs)
    env.observe("out", o.out)


def c04_long_body(env):
    """A very long line (more than the buffer) is ignored, what follows is not."""
    p = env.p
    f0 = env.int("f0", -FMAX, FMAX)
    bs, v = line_value(env, "l", 4, p.get("neg", False))
    junk = [env.int("j", 49, 57)] + [48 + (i * 7) % 10 for i in range(p["len"] - 1)]
    text_ = (bs + [10] if p.get("before") else []) + junk + [10] + ([] if p.get("before") else bs + [10])
    step = p["step"]
    chunks = [text_[i:i + step] for i in range(0, len(text_), step)] + [None] * p.get("extra", 3)
    fs = [f0] * len(chunks)
    ev, ts, ds = probes(env, len(chunks))
    rounds, freq = deliver(env, chunks)
    o = run(env, farg(env, f0) + ["-F", "fq"], rounds, sum(ev, []), freq, {"fq": "fq"})
    env.check("every event comes out", len(o.out) == 8 * len(ts))
    got = seen_offsets(o.out, ts)
    env.check("offset in force at the end", same(got[-1], signed64(v)))
    for k in range(1, len(got) - 1):
        env.check(f"round {k}: old or new offset", OR(same(got[k], signed64(v)), same(got[k], signed64(f0))))
    env.check("ends normally", o.status == 0)
    env.observe("out", o.out)


BAD = ["", "-", "abc", "12 ", "1.5", "0x10", "--5", "5-", "1e3", "2097152", "-2097152", "4294967301", "-4294967301",
       "9223372036854775813", "-9223372036854775808", "-2147483648", "2147483647", "18446744073709551621", "1 2"]


def c04_bad_body(env):
    """Malformed or out-of-range lines are ignored, later valid ones taken."""
    p = env.p
    f0 = env.int("f0", -FMAX, FMAX)
    bs, v = line_value(env, "l", 3, False)
    chunks = [list((p["line"] + "\n").encode()), bs + [10], list((p["line"] + "\n").encode()), None]
    ev, ts, ds = probes(env, len(chunks))
    rounds, freq = deliver(env, chunks)
    o = run(env, farg(env, f0) + ["-F", "fq"], rounds, sum(ev, []), freq, {"fq": "fq"})
    check_probes(env, o, ts, [f0, f0, v, v])
    env.observe("out", o.out)


def C04(tier):
    hs = []
    for k in range(1, 8):
        hs.append(Harness(f"line_{k}", c04_lines_body, dict(lines=[(k, False)]), bounds=f"one line of {k} digits"))
        hs.append(Harness(f"line_neg_{k}", c04_lines_body, dict(lines=[(k, True)]), bounds=f"one negative line of {k} digits"))
    for k in (8, 10):
        for neg in (False, True):
            hs.append(Harness(f"big_{'neg_' * neg}{k}", c04_lines_body, dict(lines=[(k, neg)]), bounds=f"a line of {k} arbitrary digits"))
    for k in (12, 19, 20) if tier == "quick" else (9, 11, 12, 15, 18, 19, 20, 21, 25, 40):
        for rest in ("0", LONGMAX) if k != 12 else ("0", "004294967296"):
            for neg in (False, True):
                hs.append(Harness(f"big_{'neg_' * neg}{k}_{rest}", c04_lines_body, dict(lines=[(k, neg, rest)]),
                                  bounds=f"a line of {k} digits, the first and last two arbitrary, others as in {rest}"))
    for a, b in ((-FMAX, FMAX), (FMAX + 1, 1 << 32), (-(1 << 32), -FMAX - 1), (1 << 32, 1 << 66), (-(1 << 66), -(1 << 32))):
        hs.append(Harness(f"range_{a}_{b}", c04_range_body, dict(range=(a, b)), bounds=f"a line with any value from {a} to {b}"))
    two = [(7, True), (3, False)]
    for t, kw, b in (("legacy", dict(args=["-x"]), "legacy word order"), ("decimal", dict(args=["-d", "-f", "0"], f0=0), "decimal mode with offset zero"),
                     ("decimal_f", dict(args=["-f", "1000000", "-d"], f0=1717986), "decimal mode with offset 1000000"),
                     ("default", dict(args=[], f0=0), "no -f"), ("all", dict(args=["-xd", "-f-1000"], f0=-1717), "legacy and decimal")):
        hs.append(Harness("two_" + t, c04_lines_body, dict(lines=two, **kw), bounds="two lines, " + b))
    hs.append(Harness("three", c04_lines_body, dict(lines=[(7, False), (7, True), (3, False)]), bounds="three lines in three rounds"))
    for n, where in ((1, (0,)), (3, (0,)), (3, (1,)), (3, (2,)), (2, (0, 1))) if tier == "quick" else \
            ((1, (0,)), (3, (0,)), (3, (1,)), (3, (2,)), (2, (0, 1)), (4, (1, 2)), (5, (4,)), (6, (5,)), (3, (0, 1, 2))):
        hs.append(Harness(f"wild_{n}_{''.join(map(str, where))}", c04_wild_body, dict(n=n, where=where), max_paths=3000,
                          bounds=f"a line of {n} characters, those at {where} arbitrary bytes"))
    hs.append(Harness("wild_follow", c04_wild_body, dict(n=2, where=(1,), follow=4321), bounds="an arbitrary line and a valid one in the same read"))
    for i, b in enumerate(BAD):
        hs.append(Harness(f"bad_{i}", c04_bad_body, dict(line=b), bounds=f"line {b!r} around a valid line"))
    for end in (None, "c"):
        hs.append(Harness(f"cut1_{end}", c04_cut_body, dict(lines=[(3, False), (2, True)], cuts=1, end=end), bounds="two lines, every cut"))
    hs.append(Harness("cut1_idle", c04_cut_body, dict(lines=[(3, False), (2, True)], cuts=1, end="c", idle=True),
                      bounds="two lines, every cut, delivered in rounds without input"))
    hs.append(Harness("cut2", c04_cut_body, dict(lines=[(2, False), (1, True)], cuts=2), witness=20, bounds="two lines in three reads, every cut"))
    hs.append(Harness("cut2_bad", c04_cut_body, dict(lines=["x1", (2, False)], cuts=2), witness=20,
                      bounds="a malformed and a valid line in three reads, every cut"))
    hs.append(Harness("cut_rest", c04_cut_body, dict(lines=[(2, False)], cuts=1, rest=[49, 50], end="c"),
                      bounds="a line and an unterminated rest, every cut, then closed"))
    if tier == "thorough":
        hs.append(Harness("cut3", c04_cut_body, dict(lines=[(3, False), (2, True), (1, False)], cuts=3), witness=40, max_paths=5000,
                          bounds="three lines in four reads, every cut"))
    for ln, step, before in ((99, 50, False), (100, 40, False), (100, 40, True), (104, 37, True), (150, 60, True), (120, 200, False), (250, 100, False), (98, 99, False)):
        hs.append(Harness(f"long_{ln}_{step}{'_b' * before}", c04_long_body, dict(len=ln, step=step, before=before),
                          bounds=f"a line of {ln} characters in reads of {step}"))
    return hs


# ------------------------------------------------------------------------ C05
def c05_body(env):
    p = env.p
    dec = p.get("decimal", False)
    bs, v = line_value(env, "n", p["digits"], p["neg"], p.get("rest"), p.get("free")) if "digits" in p else (None, None)
    if bs is None:
        v = env.int("v", *p["range"])
        arg = text(env, v)
    else:
        arg = bs
    ev, ts, ds = probes(env, 1)
    e2, t2, d2 = event((1 << 50) + PROBE, 5), (1 << 50) + PROBE, 5
    args = ["-f", arg] if not p.get("attached") else [list(b"-f") + arg]
    if dec:
        args = (["-d"] + args) if p.get("dfirst", True) else (args + ["-d"])
    o = run(env, args, [dict(i=16)], ev[0] + e2)
    lim = DMAX if dec else FMAX
    ok = AND(v <= lim, v >= -lim)
    started = len(o.out) > 0
    env.check("starts iff the offset is in range", IFF(ok, started))
    if started:
        env.check("all events come out", len(o.out) == 16)
        got = seen_offsets(o.out, [ts[0], t2])[1]
        if dec:
            env.check("decimal offset converted and truncated",
                      OR(same(got, signed64(converted(v))), exactly(env, v, got)))
        else:
            env.check("offset used", same(got, signed64(v)))
        env.check("ends normally", o.status == 0)
    else:
        env.check("error status", o.status not in (0, None))
        env.check("nothing read or written", not any(x[0] in ("read", "write") for x in o.log))
    env.observe("out", o.out)
    env.observe("status", o.status)


def converted(v):
    """The double product, truncated."""
    if isinstance(v, int):
        return int(v * (2 ** 34 / 1e10))
    x = csym.to_sym(csym.bv(from_sym(v, 32), 32), 32, True)
    return sym.f_int(sym.f_mul(sym.f_round(sym.Flt(x, 0), 53), sym.to_flt(2 ** 34 / 1e10), 53))


def exactly(env, v, got):
    """got = v * 2^34 / 10^10 truncated toward zero (2^24 / 5^10)."""
    g = csym.to_sym(got, 64, True)
    a, b = ITE(v < 0, -v, v), ITE(g < 0, -g, g)
    d = a * (1 << 24) - b * 5 ** 10
    return AND(d >= 0, d < 5 ** 10, OR(EQ(b, 0), IFF(v < 0, g < 0)), a <= DMAX)


def dlemma_body(env):
    """trunc(round53(v * C)) = floor(v * 2^24 / 5^10) for 0 <= v <= 1220703,
    C the double nearest 2^34/10^10 = c/2^52. The product v*c has at most 74
    bits, so rounding it moves it by at most e <= 2^20 units of 2^-52."""
    v0 = env.int("v", 0, DMAX)
    if not env.sym:
        env.check("truncated product", int(v0 * (2 ** 34 / 1e10)) == v0 * (1 << 24) // 5 ** 10)
        return
    c = int((2 ** 34 / 1e10) * 2 ** 52)
    I = z3.Int
    v, q, r, k, m, e = map(I, ("V", "Q", "R", "K", "M", "E"))
    hyp = [v >= 1, v <= DMAX, r >= 0, r < 5 ** 10, m >= 0, m < 1 << 52, e >= -(1 << 20), e <= 1 << 20,
           v * (1 << 24) == q * 5 ** 10 + r, v * c + e == k * (1 << 52) + m]
    env.check("product size", c * DMAX < 1 << 74)
    env.check("not above", mkbool(z3.Implies(z3.And(*hyp), k <= q)))
    env.check("not below, if the value is no integer", mkbool(z3.Implies(z3.And(r >= 1, *hyp), k >= q)))
    # r = 0 needs 5^10 | v: step j shows 5 | u from u * 2^24 = Q * 5^j
    u = I("U")
    for j in range(1, 11):
        for s in range(1, 5):
            env.check(f"divisibility {j} {s}", mkbool(z3.Not((5 * u + s) * (1 << 24) == q * 5 ** j)))
    env.check("below 5^10", DMAX < 5 ** 10)


def c05_bad_body(env):
    """Something that is not an integer."""
    p = env.p
    parts = []
    for x in p["arg"]:
        if x == "?":
            c = env.bits(f"c{len(parts)}", 8)
            env.assume(NOT(OR(AND(c >= 48, c <= 57), EQ(c, 0))))
            if not parts:
                env.assume(NOT(OR(EQ(c, 32), AND(c >= 9, c <= 13), EQ(c, 43), EQ(c, 45))))
            parts.append(c)
        elif x == "9":
            parts.append(env.int(f"c{len(parts)}", 48, 57))
        else:
            parts.append(ord(x))
    e = event(1 << 50, 3) + event((1 << 50) + PROBE, 5)
    o = run(env, (["-d"] if p.get("decimal") else []) + ["-f", parts], [dict(i=16)], e)
    env.check("refused", AND(len(o.out) == 0, o.status not in (0, None)))
    env.check("nothing read or written", not any(x[0] in ("read", "write") for x in o.log))
    env.observe("status", o.status)


def C05(tier):
    hs = [Harness("lemma", dlemma_body, {}, bounds="all decimal offsets")]
    for dec in (False, True):
        t = "d" * dec
        lim = DMAX if dec else FMAX
        for a, b in ((-lim, lim), (lim + 1, (1 << 31) - 1), (-(1 << 31), -lim - 1), (1 << 31, 1 << 62), (-(1 << 62), -(1 << 31) - 1),
                     (1 << 62, 1 << 66), (-(1 << 66), -(1 << 62))):
            hs.append(Harness(f"{t}range_{a}_{b}", c05_body, dict(decimal=dec, range=(a, b)), bounds=f"every value from {a} to {b}"))
        for k in ((1, 3, 7, 8, 10) if not dec else (1, 2, 7, 8, 10)) if tier == "quick" else range(1, 13):
            for neg in (False, True):
                rest = "1220703220703" if dec and k > 3 else None
                hs.append(Harness(f"{t}digits_{k}{'n' * neg}", c05_body,
                                  dict(decimal=dec, digits=k, neg=neg, attached=k % 2 == 1, dfirst=k % 3 != 0, rest=rest,
                                       free=(6,) if k == 7 and dec else None),
                                  bounds=f"every text of {k} digits" if not rest else f"{k} digits, the last one or the outer ones arbitrary"))
        for neg in (False, True):
            hs.append(Harness(f"{t}separate{'n' * neg}", c05_body, dict(decimal=dec, digits=2, neg=neg), bounds="every text of 2 digits, as separate argument"))
        for arg in ("?", "9?", "9?9", "99?", "-?", "-", "", "?9", "9.9", "0x9", "-9?", "99 9") + (("999?", "9?99", "9999999?") if tier == "thorough" else ()):
            hs.append(Harness(f"{t}bad_{arg.replace('?', 'X') or 'empty'}", c05_bad_body, dict(arg=arg, decimal=dec),
                              bounds=f"arguments of the form {arg!r} (9: any digit, ?: any other byte)"))
    return hs


# ------------------------------------------------------------------------ C06
def c06_body(env):
    p = env.p
    blocks = p["blocks"]
    n = sum(blocks)
    fs = [env.int(f"f{i}", -FMAX, FMAX) if f == "sym" else f for i, f in enumerate(p["fs"])]
    ts, ds = series(env, n, p.get("span", 53), p.get("roll", False))
    freq, rounds = [], []
    for b, u in zip(blocks, list(fs[1:]) + [None]):
        r = dict(i=8 * b)
        if u is not None:
            tx = text(env, u) + [10]
            freq += tx
            r["q"] = len(tx)
        rounds.append(r)
    leg = p.get("legacy", False)
    inp = sum([event(t, d, leg) for t, d in zip(ts, ds)], [])
    o = run(env, (["-x"] if leg else []) + farg(env, fs[0]) + (["-F", "fq"] if freq else []), rounds, inp, freq, {"fq": "fq"} if freq else None)
    env.check("every event comes out", len(o.out) == 8 * n)
    ws = words(o.out, leg)
    ref = [word(r, d) for r, d in zip(expected(ts, blocks, fs), ds)]
    k = 0
    for bi, (b, f) in enumerate(zip(blocks, fs)):
        for _ in range(b):
            if k:
                # the integer formula has both properties, as the lemmas show
                ideal = AND(same(ws[k - 1], ref[k - 1]), same(ws[k], ref[k]))
                step = low54(sub(csym_shr10(ws[k]), csym_shr10(ws[k - 1])))
                dt = wrap(ts[k] - ts[k - 1])
                env.check(f"event {k} not before event {k - 1}", lazy_or(ideal, lambda: arith_cmp(z3.ULE, int.__le__, step, (1 << 53) + (1 << 41))))
                env.check(f"event {k}: elapsed time scaled by the offset in force", lazy_or(ideal, lambda: nostep(step, dt, f)))
            k += 1
    env.check("ends normally", o.status == 0)
    env.observe("out", o.out)


def c06_lemma_body(env):
    """Two events of a block at elapsed times d1 <= d2 (d1 = 0: the reference
    event itself) with d = 4096 q + r and q f = 2^22 c + s: the corrected times
    differ by at least 0, and by (d2 - d1)(1 + f/2^34) to within 3 units."""
    d1 = env.bits("d1", 54)
    d2 = env.bits("d2", 54)
    f = env.int("f", -FMAX, FMAX)
    env.assume(d1 <= d2)
    if not env.sym:
        c = lambda d: ((d >> 12) * f) >> 22
        step = d2 - d1 + c(d2) - c(d1)
        env.check("order kept", step >= 0)
        env.check("rate", abs(((step - (d2 - d1)) << 34) - (d2 - d1) * f) <= 3 << 34)
        return
    I = z3.Int
    q1, q2, r1, r2, s1, s2, c1, c2, F, m, P = map(I, "q1 q2 r1 r2 s1 s2 c1 c2 F m P".split())
    rf1, rf2, dd = map(I, ("rf1", "rf2", "dd"))
    rng = [z3.And(r >= 0, r < 4096) for r in (r1, r2)] + [z3.And(s >= 0, s < 1 << 22) for s in (s1, s2)]
    # P = (q2 - q1) F, rf = r F: |F| <= FMAX bounds the products linearly
    hyp = rng + [m == q2 - q1, m >= 0, F <= FMAX, F >= -FMAX, P <= m * FMAX, P >= -m * FMAX,
                 (c2 - c1) * (1 << 22) == P + s1 - s2, dd == m * 4096 + r2 - r1, dd >= 0]
    same_q = [m == 0, c1 == c2]
    env.check("product bounds", mkbool(z3.Implies(z3.And(m >= 1, F <= FMAX, F >= -FMAX, P == m * F), z3.And(P <= m * FMAX, P >= -m * FMAX))))
    env.check("order kept", mkbool(z3.Implies(z3.And(m >= 1, *hyp), dd + c2 - c1 >= 0)))
    env.check("order kept (same quotient)", mkbool(z3.Implies(z3.And(*same_q, *hyp), dd + c2 - c1 >= 0)))
    # 2^34 (c2 - c1) - dd F = 4096 (P + s1 - s2) - 4096 P - rf2 + rf1
    rate = 4096 * (s1 - s2) - rf2 + rf1
    bound = [z3.And(x <= r * FMAX, x >= -r * FMAX) for x, r in ((rf1, r1), (rf2, r2))]
    env.check("rate", mkbool(z3.Implies(z3.And(*rng, *bound), z3.And(rate <= 3 << 34, rate >= -(3 << 34)))))
    env.check("no wrap", mkbool(z3.Implies(z3.And(dd < 1 << 53, *hyp), dd + c2 - c1 <= (1 << 53) + (1 << 41))))


def arith_cmp(sf, cf, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return cf(a, b)
    return mkbool(z3.simplify(sf(csym.bv(a, 64), csym.bv(b, 64))))


def nostep(dout, dt, f):
    """|dout - dt (1 + f/2^34)| <= 3 units (dout modulo 2^54, small steps back
    appear as numbers next to 2^54)."""
    if all(isinstance(x, int) for x in (dout, dt, f)):
        d = dout - dt
        d = d - (1 << 54) if d > 1 << 53 else d + (1 << 54) if d < -(1 << 53) else d
        return abs((d << 34) - dt * f) <= 3 << 34
    W = 128
    d = z3.SignExt(W - 54, z3.Extract(53, 0, csym.bv(dout, 64)) - z3.Extract(53, 0, csym.bv(from_sym(dt, 64), 64)))
    e = (d << 34) - csym.bv(from_sym(dt, W), W) * csym.bv(from_sym(f, W), W)
    return mkbool(z3.And(e <= (3 << 34), e >= -(3 << 34)))


def C06(tier):
    hs = [Harness("lemma", c06_lemma_body, {}, bounds="elapsed times below 2^54, all offsets")]
    for shape in [(3,), (1, 1), (2, 1), (1, 2), (1, 1, 1), (2, 2)] + ([(1, 2, 1), (2, 1, 2), (1, 1, 1, 1), (5,), (3, 3)] if tier == "thorough" else []):
        t = "_".join(map(str, shape))
        hs.append(Harness(f"sym_{t}", c06_body, dict(blocks=shape, fs=["sym"] * len(shape)),
                          bounds=f"reads of {shape} events over less than 2^53 units, any offset in each"))
        hs.append(Harness(f"roll_{t}", c06_body, dict(blocks=shape, fs=["sym"] * len(shape), roll=True),
                          bounds=f"the same across the roll-over of the counter"))
    hs.append(Harness("legacy", c06_body, dict(blocks=(2, 1), fs=["sym"] * 2, roll=True, legacy=True), bounds="legacy word order, 3 events in 2 reads, any offset in each"))
    for fs in ((FMAX, -FMAX, FMAX), (-FMAX, FMAX, -FMAX), (0, 1000000, -1), (-54321, -54322, 0), (FMAX,), (-FMAX,), (7, -7)):
        for shape in {1: [(3,)], 2: [(1, 1), (2, 1)], 3: [(1, 1, 1)]}[len(fs)]:
            hs.append(Harness(f"mono_{'_'.join(map(str, fs))}_{'_'.join(map(str, shape))}", c06_body, dict(blocks=shape, fs=fs),
                              bounds=f"offsets {fs}, reads of {shape} events over less than 2^53 units"))
    return hs


# ------------------------------------------------------------------------ C07
def c07_body(env):
    env.p = dict(env.p, roll=True, bits=True)
    c01_body(env)


def near_body(env):
    """Times next to the top of the counter: the output leaves 54 bits."""
    p = env.p
    f = fsetting(env, p["f"])
    n = p["n"]
    t = env.bits("t0", 54)
    env.assume(t >= (1 << 54) - (1 << 30))
    ts, ds = [t], [env.bits("d0", 10)]
    for i in range(1, n):
        t = env.bits(f"t{i}", 54)
        ts.append(t)
        ds.append(env.bits(f"d{i}", 10))
    for a, b in zip(ts, ts[1:]):
        env.assume(elapsed(ts, a) <= elapsed(ts, b))
    env.assume(elapsed(ts, ts[-1]) < 1 << 47)
    blocks = p["blocks"]
    o = run(env, farg(env, f), [dict(i=8 * b) for b in blocks], sum([event(t, d) for t, d in zip(ts, ds)], []))
    env.check("every event comes out", len(o.out) == 8 * n)
    ref = expected(ts, blocks, [f] * len(blocks))
    for k, got in enumerate(words(o.out)):
        env.check(f"event {k}: timestamp modulo 2^54",
                  lazy_or(same(got, word(ref[k], ds[k])),
                          lambda: close(csym_shr10(got), ts[k], elapsed(ts, ts[k]), f, len(blocks))))
        env.check(f"event {k}: detector bits", same(lowbits(got), b64(ds[k])))
    env.check("ends normally", o.status == 0)
    env.observe("out", o.out)


def C07(tier):
    hs = []
    for sh in [(2,), (1, 1), (1, 2), (2, 1)] + ([(1, 1, 1), (3, 2), (1, 1, 1, 1)] if tier == "thorough" else []):
        hs.append(Harness("roll_" + "_".join(map(str, sh)), c07_body, dict(blocks=sh, f="sym"),
                          bounds=f"{sum(sh)} events in {len(sh)} reads, elapsed time below 2^54 across the roll-over, any offset"))
    for f in FVALUES:
        hs.append(Harness(f"roll_f{f}", c07_body, dict(blocks=(1, 2), f=f), bounds="3 events in 2 reads across the roll-over"))
        hs.append(Harness(f"near_f{f}", near_body, dict(n=3, blocks=(2, 1), f=f), bounds="3 events around the roll-over"))
    hs.append(Harness("near_sym", near_body, dict(n=3, blocks=(1, 2), f="sym"), bounds="3 events around the roll-over, any offset"))
    hs.append(Harness("roll_legacy", c07_body, dict(blocks=(1, 1), f="sym", legacy=True), bounds="legacy order"))
    return hs


# ------------------------------------------------------------------------ C08
def safe(env, *a, **k):
    o = run(env, *a, safety=True, **k)
    if env.sym:
        env.check("no undefined behaviour", o.ub is None)
        for i, (what, cond) in enumerate(o.obligations):
            env.check(f"defined: {what}", mkbool(cond))
    else:
        env.check("no undefined behaviour", not o.ub)
        if o.ub:
            env.check("sanitizer: " + o.ub[:300], False)
    return o


def c08_events_body(env):
    p = env.p
    f = fsetting(env, p["f"])
    n = p["bytes"]
    inp = [env.bits(f"b{i}", 8) for i in range(n)]
    rounds = [dict(i=r) if r else dict() for r in p["rounds"]]
    safe(env, (["-x"] if p.get("legacy") else []) + farg(env, f), rounds, inp)


def c08_args_body(env):
    p = env.p
    args = []
    for a in p["args"]:
        if isinstance(a, tuple) and a[0] == "name":
            args.append([97 + i % 26 for i in range(a[1])])
        elif isinstance(a, tuple) and a[0] == "num":
            bs, v = line_value(env, "n", *a[1:])
            args.append(bs)
        elif isinstance(a, tuple) and a[0] == "any":
            bs = [env.bits(f"a{i}", 8) for i in range(a[1])]
            for b in bs:
                env.assume(NOT(EQ(b, 0)))
            args.append(bs)
        else:
            args.append(a)
    names = {}
    for a, spec in zip(args, p["args"]):
        if isinstance(spec, tuple) and spec[0] == "name":
            for k in (len(a), 199, 200, 198):
                names["".join(map(chr, a[:k]))] = p.get("kind", "in")
    safe(env, args, [dict(i=8)] if p.get("kind") != "deny" else [dict(i=8)], event(5, 3), files=dict(names, **p.get("files", {})))


def c08_freq_body(env):
    """Frequency text of arbitrary bytes."""
    p = env.p
    n = p["n"]
    data = []
    for i in range(n):
        if i in p["wild"]:
            data.append(env.bits(f"c{i}", 8))
        elif i in p.get("digits", ()):
            data.append(env.int(f"c{i}", 48, 57))
        else:
            data.append(p["fill"][i % len(p["fill"])])
    rounds, left = [], n
    for s in p["reads"]:
        rounds.append(dict(i=8, q=s))
        left -= s
    rounds += [dict(i=8, q="c"), dict(i=8)]
    inp = sum([event((1 << 50) + i * PROBE, i) for i in range(len(rounds))], [])
    safe(env, ["-F", "fq"], rounds, inp, data, {"fq": "fq"})


def c08_faults_body(env):
    p = env.p
    inp = [env.bits(f"b{i}", 8) for i in range(16)]
    safe(env, p["args"], p["rounds"], inp, list(b"12\n"), p.get("files"), p.get("wfault"), p.get("mfault"))


def c08_long_body(env):
    p = env.p
    n = p["n"]
    t = env.bits("t", 54) if n < 1026 else 77
    inp = event(t, 1) + sum([event((1 << 40) + i, i & 1023) for i in range(n - 2)], []) + event(env.bits("u", 54), 2)
    safe(env, ["-f", "2097151"], [dict(i=r) for r in p["rounds"]] + [dict()] * 3, inp)


def C08(tier):
    hs = []
    thorough = tier == "thorough"
    for k, (n, rounds) in enumerate([(8, [8]), (24, [24]), (24, [8, 16]), (16, [3, 5, 8]), (9, [3, 0, 6]), (7, [7]), (16, [0, 1, 15]), (12, [8, 4])]
                                    + ([(32, [8, 8, 8, 8]), (40, [40]), (24, [1] * 24), (21, [7, 7, 7])] if thorough else [])):
        for f in ("sym", FMAX) if k in (1, 2) or thorough else ("sym",):
            hs.append(Harness(f"events_{'_'.join(map(str, rounds))}_{f}", c08_events_body, dict(bytes=n, rounds=rounds, f=f), solver_ms=60000,
                              bounds=f"{n} arbitrary bytes in reads {rounds}, offset {f}"))
    hs.append(Harness("events_legacy", c08_events_body, dict(bytes=17, rounds=[5, 0, 12], f="sym", legacy=True), bounds="17 arbitrary bytes"))
    for opt in ("-i", "-o", "-F"):
        for ln in (199, 200, 201, 1000) if not thorough else (1, 198, 199, 200, 201, 202, 255, 1000, 4000):
            for kind in ("deny", {"-i": "in", "-o": "out", "-F": "fq"}[opt]):
                hs.append(Harness(f"name{opt}_{ln}_{kind}", c08_args_body, dict(args=[opt, ("name", ln)], kind=kind), bounds=f"file name of {ln} characters"))
    for k in (3, 10, 19, 20) if not thorough else range(1, 23):
        for neg in (False, True):
            for d in (False, True):
                rest = [LONGMAX] if k > 10 else []
                hs.append(Harness(f"num_{k}{'n' * neg}{'d' * d}", c08_args_body, dict(args=(["-d"] if d else []) + ["-f", ("num", k, neg, *rest)]),
                                  bounds=f"-f with {k} digits, {'the outer ones' if rest else 'all'} arbitrary"))
    for n in (1, 2) if not thorough else (1, 2, 3):
        hs.append(Harness(f"any_f_{n}", c08_args_body, dict(args=["-f", ("any", n)]), max_paths=2000, bounds=f"-f with {n} arbitrary bytes"))
        hs.append(Harness(f"any_opt_{n}", c08_args_body, dict(args=[("any", n)]), max_paths=4000, bounds=f"an argument of {n} arbitrary bytes"))
    for args in (["-f"], ["-"], ["--"], ["-x", "--", "-f"], ["-f", ""], ["-i", ""], ["-o", " "], ["-F", ""], ["-:"], ["-xz"], [""], ["-h"], ["-xh"]):
        hs.append(Harness("args_" + "_".join(args).replace("/", ""), c08_args_body, dict(args=args), bounds=f"arguments {args}"))
    D = list(b"1234567890")
    for n, wild, reads, fill in [(4, (0, 1), [4], D), (4, (1, 3), [2, 2], D), (6, (2, 5), [1, 5], D), (30, (12,), [30], D),
                                 (120, (110,), [120], D), (120, (50,), [60, 60], D), (99, (98,), [99], D), (101, (99, 100), [100, 1], D),
                                 (250, (), [250], D), (12, (), [12], list(b"-2147483648\n")), (26, (), [26], list(b"-9223372036854775809\n")),
                                 (30, (), [30], list(b"99999999999999999999\n")), (8, (), [8], [10]), (300, (299,), [99, 99, 99, 3], D)]:
        hs.append(Harness(f"freq_{n}_{'_'.join(map(str, wild))}_{'_'.join(map(str, reads))}_{fill[0]}", c08_freq_body,
                          dict(n=n, wild=wild, reads=reads, fill=fill), max_paths=4000, bounds=f"{n} bytes in reads {reads}, bytes {wild} arbitrary"))
    for k in (10, 19) if not thorough else (8, 10, 12, 18, 19, 20, 22):
        hs.append(Harness(f"freqnum_{k}", c08_freq_body, dict(n=k + 2, wild=(), digits=range(1, k + 1) if k < 13 else (1, 2, k - 1, k), reads=[k + 2],
                                                              fill=[45] + [int(LONGMAX[i % 19]) + 48 for i in range(k)] + [10]),
                          bounds=f"a line of - and {k} digits, all or the outer ones arbitrary"))
    for mf in (0, 1, 2, 3):
        hs.append(Harness(f"malloc_{mf}", c08_faults_body, dict(args=["-F", "fq"], rounds=[dict(i=16)], mfault=mf, files={"fq": "fq"}),
                          bounds=f"allocation {mf} fails"))
    for i, r in enumerate(([dict(s="e")], [dict(i=16), dict(s="e")], [dict(i=5), dict(i="e")], [dict(i=16, q=2), dict(q="e")], [dict(q="c"), dict(i=16)])):
        hs.append(Harness(f"fault_{i}", c08_faults_body, dict(args=["-F", "fq"], rounds=r, files={"fq": "fq"}), bounds=f"faults {r}"))
    hs.append(Harness("fault_write", c08_faults_body, dict(args=[], rounds=[dict(i=16)], wfault=(5, "short")), bounds="short write"))
    for n, rounds in ((1025, [8200]), (1030, [8195, 45]), (2048, [16384])):
        hs.append(Harness(f"long_{n}_{len(rounds)}", c08_long_body, dict(n=n, rounds=rounds), path_timeout=300, replay_timeout=60,
                          bounds=f"{n} events in one go, first and last arbitrary"))
    return hs


# ------------------------------------------------------------------------ C09
def c09_body(env):
    p = env.p
    f = fsetting(env, "sym")
    n = 3
    ts, ds = series(env, n, 50)
    inp = sum([event(t, d) for t, d in zip(ts, ds)], [])
    freq = list(b"-77\n5\n")
    plan = p["plan"]                       # fault-free rounds
    files = {"fq": "fq"}
    args = farg(env, f) + ["-F", "fq"]
    good = run(env, args, plan, inp, freq, files)
    wf = None
    k = None
    rounds = plan
    if p["fault"] == "write":
        wf = (env.pick("after", list(range(0, 25))), p["how"])
        env.assume(wf[0] < 24)
    else:
        k = env.pick("round", list(range(len(plan) + 1)))
        key = {"wait": "s", "read": "i", "freq": "q"}[p["fault"]]
        r = dict(plan[k]) if k < len(plan) else {}
        if p["fault"] == "wait":
            r = {"s": "e"}
        else:
            r[key] = "e"
        rounds = plan[:k] + [r] + plan[k + 1:]
        if p["fault"] == "read" and k < len(plan) and plan[k].get("i"):
            pass
    bad = run(env, args, rounds, inp, freq, files, wf)
    env.check("fault-free run ends with status 0", good.status == 0)
    env.check("fault-free run delivers everything", len(good.out) == 8 * n)
    env.check("output is a prefix of the fault-free output", len(bad.out) <= len(good.out))
    for i in range(0, len(bad.out) - 7, 8):
        env.check(f"bytes {i}..{i + 7} as without fault", same(join(bad.out[i:i + 8]), join(good.out[i:i + 8])))
    i = len(bad.out) // 8 * 8
    if i < len(bad.out):
        env.check("partial event as without fault", AND(*[EQ(a, b) for a, b in zip(bad.out[i:], good.out[i:])]))
    env.check("stops at the fault", stops(bad.log, p["fault"], k))
    env.observe("out", bad.out)


def stops(log, fault, k):
    """Nothing is read, written or waited for after the failing operation,
    except that events already read may still be written before stopping."""
    waits = 0
    for i, x in enumerate(log):
        if x[0] == "wait":
            waits += 1
            if fault == "wait" and waits == k + 1:
                return not [y for y in log[i + 1:] if y[0] in ("wait", "read", "write")]
        if x[0] == "read" and x[2] < 0:
            return not [y for y in log[i + 1:] if y[0] in ("wait", "read")]
        if x[0] == "write" and x[2] != x[1]:
            return not [y for y in log[i + 1:] if y[0] in ("wait", "read", "write")]
    return fault != "wait"


def eof_body(env):
    p = env.p
    f = fsetting(env, "sym")
    ts, ds = series(env, 2, 50)
    inp = sum([event(t, d) for t, d in zip(ts, ds)], [])[:p["bytes"]]
    o = run(env, farg(env, f), [dict(i=p["bytes"])] if p["bytes"] else [], inp)
    env.check("status 0 at end of input", o.status == 0)
    env.check("complete events delivered", len(o.out) == p["bytes"] // 8 * 8)
    env.observe("out", o.out)


def nostart_body(env):
    """A file that cannot be opened or a buffer that is not to be had."""
    p = env.p
    f = fsetting(env, "sym")
    ts, ds = series(env, 1, 50)
    o = run(env, farg(env, f) + p["args"], [dict(i=8, q=2)], event(ts[0], ds[0]), list(b"1\n"), p["files"], mfault=p.get("mfault"))
    if p.get("mfault") is not None and len(o.out) == 8:      # did not need that many
        env.check("all went well", o.status == 0)
        return
    env.check("no event is processed", len(o.out) == 0 and not [x for x in o.log if x[0] in ("wait", "read", "write")])
    env.check("nonzero status", o.status != 0)


PLANS = [[dict(i=24)], [dict(i=8), dict(i=16)], [dict(i=8, q=4), dict(i=5), dict(i=11, q=2)], [dict(), dict(i=16, q=6), dict(i=8)]]


def C09(tier):
    hs = []
    plans = PLANS + ([[dict(i=3), dict(i=5), dict(i=8), dict(i=8)], [dict(q=2), dict(i=20, q=2), dict(q=2), dict(i=4)]] if tier == "thorough" else [])
    for i, plan in enumerate(plans):
        for fault in ("wait", "read", "freq"):
            hs.append(Harness(f"{fault}_{i}", c09_body, dict(plan=plan, fault=fault), witness=20, bounds=f"reads {plan}, one {fault} fault at any round"))
        for how in ("err", "short"):
            hs.append(Harness(f"write_{how}_{i}", c09_body, dict(plan=plan, fault="write", how=how), witness=12,
                              bounds=f"reads {plan}, output stops after any number of bytes ({how})"))
    three = ["-i", "IN", "-o", "OUT", "-F", "FQ"]
    for opt, name in (("-i", "IN"), ("-o", "OUT"), ("-F", "FQ")):
        hs.append(Harness(f"missing{opt}", nostart_body, dict(args=[opt, name], files={name: "deny"}), bounds=f"{opt} file cannot be opened"))
        hs.append(Harness(f"missing_all{opt}", nostart_body, dict(args=three, files=dict(FILES, **{name: "deny"})), bounds=f"{opt} file of all three cannot be opened"))
    for m in (0, 1, 2, 3):
        hs.append(Harness(f"memory_{m}", nostart_body, dict(args=["-F", "FQ"], files={"FQ": "fq"}, mfault=m), bounds=f"allocation fails after {m}"))
    for b in (0, 1, 8, 11, 16):
        hs.append(Harness(f"eof_{b}", eof_body, dict(bytes=b), bounds=f"end of input after {b} bytes"))
    return hs


# ------------------------------------------------------------------------ C10
FILES = {"IN": "in", "OUT": "out", "FQ": "fq", "fake": "in"}
FILES_STDIN = {"OUT": "out", "FQ": "fq"}


def settings(o):
    """What is visible of the effective settings."""
    return sorted(x[1:3] for x in o.log if x[0] == "open")


def c10_body(env):
    p = env.p
    forms = p["forms"]
    ftext, f = line_value(env, "f", p.get("digits", 2), p.get("neg", False))
    ts, ds = series(env, 2, 50)
    inp = sum([event(t, d) for t, d in zip(ts, ds)], [])
    freq = list(b"4242\n")
    rounds = [dict(i=8, q=5), dict(i=8)]
    if p.get("noF"):
        rounds = [dict(i=8), dict(i=8)]

    def build(form):
        args = []
        for a in form:
            if isinstance(a, tuple):
                args.append(sum([ftext if x == "%f" else list(x.encode()) for x in a], []))
            elif a == "%f":
                args.append(ftext)
            else:
                args.append(a)
        return args
    files = FILES_STDIN if p.get("noF") else FILES
    ref = run(env, build(forms[0]), rounds, inp, freq, files)
    env.check("reference run delivers the events", len(ref.out) == 16)
    k = env.pick("form", list(range(1, len(forms))))
    o = run(env, build(forms[k]), rounds, inp, freq, files)
    env.check(f"same exit status", o.status == ref.status)
    env.check("same streams opened", settings(o) == settings(ref))
    env.check("same number of events", len(o.out) == len(ref.out))
    for x, y in zip(words(o.out), words(ref.out)):
        env.check("same output", same(x, y))
    env.observe("out", o.out)


def c10_help_body(env):
    o = run(env, env.p["args"], [dict(i=8)], event(77, 3), list(b"5\n"), FILES)
    env.check("status 1", o.status == 1)
    env.check("no stream is touched", not [x for x in o.log if x[0] in ("open", "read", "write", "wait")])
    env.check("no event is written", len(o.out) == 0)
    env.observe("status", o.status)


def perms(parts, limit, seed):
    """Different orders of option groups, the canonical one first."""
    import random
    allp = list(itertools.permutations(parts))
    rng = random.Random(seed)
    rest = allp[1:]
    rng.shuffle(rest)
    return [sum(x, []) for x in allp[:1] + rest[:limit]]


def C10(tier):
    hs = []
    lim = 24 if tier == "quick" else 119
    full = [["-i", "IN"], ["-o", "OUT"], ["-F", "FQ"], ["-f", "%f"], ["-x"], ["-d"]]
    for k in range(4 if tier == "quick" else 12):
        hs.append(Harness(f"order_{k}", c10_body, dict(forms=perms(full, lim, k), neg=k % 2 == 1), witness=12,
                          bounds=f"all six options, sampled orders, any offset of two digits{', negative' if k % 2 else ''}"))
    three = [["-f", "%f"], ["-x"], ["-d"]]
    for neg in (False, True):
        t = "_neg" * neg
        hs.append(Harness("order_small" + t, c10_body, dict(forms=perms(three, 6, 0), noF=True, neg=neg), bounds="-f, -x, -d in every order"))
        hs.append(Harness("cluster" + t, c10_body, dict(noF=True, neg=neg, forms=[
        ["-x", "-d", "-f", "%f"], ["-xd", "-f", "%f"], ["-dx", "-f", "%f"], [("-xdf", "%f")], ["-xdf", "%f"], [("-dxf", "%f")], [("-f", "%f"), "-xd"],
        ["-d", ("-xf", "%f")], ["-x", "-x", "-dd", "-f", "%f"], ["-f", "%f", "-x", "-d", "--"], ["-f", "%f", "-xd", "--", "-f", "9"],
        ["-f", "%f", "-xd", "rest"], ["-f", "%f", "-xd", "rest", "-f", "9", "-i", "NONE"], ["-f", "3", "-f", "%f", "-xd"],
        ["-xdf", "3", ("-f", "%f")], ["-f", "%f", "-xd", "-"], ["-f", "%f", "-xd", "-", "-f", "3"]]),
        bounds="flags clustered or separate, values attached or separate, end of options"))
    two = [["-i", "IN"], ["-o", "OUT"], ["-F", "FQ"]]
    hs.append(Harness("order_files", c10_body, dict(forms=perms(two, 6, 0)), bounds="-i, -o, -F in every order"))
    hs.append(Harness("attached", c10_body, dict(forms=[
        ["-i", "IN", "-o", "OUT", "-F", "FQ", "-x"], ["-iIN", "-oOUT", "-FFQ", "-x"], ["-xiIN", "-oOUT", "-F", "FQ"], ["-xi", "IN", "-o", "OUT", "-FFQ"],
        ["-FFQ", "-xoOUT", "-iIN"], ["-i", "IN", "-x", "-oOUT", "-F", "FQ", "--", "-i", "NONE"], ["-i", "fake", "-i", "IN", "-o", "OUT", "-F", "FQ", "-x"]]),
        bounds="file names attached or separate"))
    hs.append(Harness("stop", c10_body, dict(noF=True, forms=[
        ["-x"], ["-x", "--", "-d"], ["-x", "file", "-f", "99"], ["-x", "--", "-h"], ["-x", "-", "-d", "-f", "77"], ["-x", "", "-f", "5"]]),
        bounds="options after -- or the first other argument are not looked at"))
    for neg in (False, True):
        for d in (1, 3, 6):
            hs.append(Harness(f"value_{d}{'_neg' * neg}", c10_body, dict(noF=True, digits=d, neg=neg, forms=[["-f", "%f"], [("-f", "%f")]]),
                              bounds=f"attached and separate values of {d} digits{' and a sign' if neg else ''}"))
    for i, a in enumerate((["-h"], ["-xh"], ["-f", "5", "-h"], ["-h", "-f", "99999999"], ["-i", "IN", "-o", "OUT", "-h"], ["-hx"], ["-dxh", "-i", "IN"],
                           ["-f", "99999999", "-h"], ["-F", "FQ", "-h"])):
        hs.append(Harness(f"help_{i}", c10_help_body, dict(args=a), bounds=f"arguments {a}"))
    return hs


PROPS = {f"C{i:02d}": globals()[f"C{i:02d}"] for i in range(1, 11)}

ASSUME = ["LLVM IR of clang -O0 stands for the program; every path's witness is replayed on a gcc build of the same sources",
          "system and library calls behave as in vlib/csym.py (class IO and the c_* functions), which vlib/shim.c repeats for the replays",
          "a wait reports a stream ready exactly when data, end or an error is there; reads return what is available up to the requested size"]


def prepare(pid):
    try:
        cbuild.module()
        for k in (("asan", "msan") if pid == "C08" else ("plain",)):
            cbuild.binary(k)
    except Exception as e:
        print(f"building freqcd failed: {e}")


def check(pid, tier, seed, only):
    prepare(pid)
    return report.check(pid, PROPS[pid](tier), tier, seed, only, budget=100 if tier == "quick" else 600, assumptions=ASSUME)


def replay(v):
    prepare(v["property"])
    return report.replay(v, PROPS[v["property"]](v.get("tier", "quick")))
