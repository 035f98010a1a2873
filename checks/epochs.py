"""E01-E10: epoch files (T1-T4), epoch names, epoch directories."""
import datetime as _dt
from fractions import Fraction

import numpy as np

from vlib import report
from vlib.harness import (AND, EQ, IFF, IMPL, ITE, NOT, OR, Harness, norm_cond, raw, same_list,
                          scaled, vals)
from vlib.sym import Flt, f_mul, f_sub, mkbool, to_flt, z3

PE = "fpfind.lib.parse_epochs"
PT = "fpfind.lib.parse_timestamps"
UT = "fpfind.lib.utils"
CO = "fpfind.lib.constants"
MASK32 = 0xFFFFFFFF
SHIFT = {"NS1": 8, "PS125": 5, "PS4": 0}          # log2 of 4 ps units per unit
SHIFT2 = {"NS1": 3, "PS125": 0, "PS4": -5}        # log2 of 125 ps units per unit


# ------------------------------------------------------------- specification
def le32(v):
    return [(v >> (8 * i)) & 0xFF for i in range(4)]


def words32(ws):
    out = []
    for w in ws:
        out += le32(w & MASK32)
    return out


def name_of(epoch):
    return format(epoch, "x")


def t1_file(epoch, events, length, end=(0, 0), tag=0x101, bits=49, base=4):
    """Header and body of a T1 file, from the file specification; every event
    and the terminator is stored high word first."""
    body = []
    for w in events:
        body += [w >> 32, w & MASK32]
    return words32([tag, epoch, length, bits, base] + body + list(end))


def t1_event(epoch, t, d):
    return (((epoch & 0x1FFFF) << 37) + t << 10) + d


def close_floats(xs, ys, bound):
    """Floats within the bound of exact values (both in units of 2**-k ns)."""
    xs, ys = list(xs), list(ys)
    if len(xs) != len(ys):
        return False
    cs = []
    for x, y in zip(xs, ys):
        # exact difference: the values share a power-of-two grid
        d = f_sub(to_flt(x), to_flt(y), 4000)
        cs.append(AND(d <= bound, -d <= bound))
    return AND(*cs)


# ------------------------------------------------------------------------ E01
def roundtrip_body(env):
    pe, R = env.mod(PE), env.mod(CO).TSRES
    p = env.p
    n = p["n"]
    lo, hi = p["epochs"]
    epoch = env.int("epoch", lo, hi)
    T = [env.bits(f"t{i}", 37) for i in range(n)]
    one = p["container"] == "scalar"
    D = [env.int("d", 1, 15)] * n if one else [env.int(f"d{i}", 1, 15) for i in range(n)]
    kind = p["container"]
    if kind in ("list", "scalar"):
        ts, ds = list(T), (D[0] if n else env.int("d", 1, 15)) if one else list(D)
    else:
        ts, ds = env.array(T, kind), env.array(D, p.get("dkind", kind))
    d = env.mkdir("out")
    target = pe.write_T1(d, epoch, ts, ds)
    name = name_of(epoch)
    env.check("one file, named after the epoch in hex", env.exists("out/" + name) and len(env.listing("out")) == 1)
    data = env.read("out/" + name)
    env.check("file content follows the specification",
              same_list(data, t1_file(epoch, [t1_event(epoch, t, x) for t, x in zip(T, D)], n)))
    for frac, res in ((False, "PS4"), (True, "PS4")) if p.get("both") else ((False, "PS4"),):
        t, x = pe.read_T1(target, full_epoch=True, resolution=getattr(R, res), fractional=frac)
        env.check("number of events", len(t) == n and len(x) == n)
        if not frac:
            env.check("epoch and time of every event in order", same_list(vals(t), [(epoch << 37) + v for v in T]))
        env.check("detectors in order", same_list(vals(x), D))
        env.observe("t", t)
        env.observe("d", x)
    h = pe.read_T1_header(target)
    env.check("header holds epoch and count", AND(EQ(h.epoch, epoch), EQ(h.length_bits, n), EQ(h.tag, 0x101)))
    env.reach("round trip")


def mismatch_body(env):
    """Lists of different lengths are refused."""
    pe = env.mod(PE)
    d = env.mkdir("out")
    r = env.call(pe.write_T1, d, env.bits("epoch", 28), [1, 2], [env.int("d", 1, 15)], expect=(ValueError,))
    env.check("different numbers of times and detectors are rejected", r.is_exc(ValueError))


def E01(tier):
    hs = []
    top = (1 << 28, MASK32)
    sizes = (0, 1, 2, 5) if tier == "quick" else (0, 1, 2, 3, 5, 9, 20)
    for c in ("list", "scalar", "int64", "uint64"):
        for n in sizes:
            hs.append(Harness(f"roundtrip_{c}_n{n}", roundtrip_body, dict(n=n, container=c, epochs=top, both=n == 1),
                              bounds=f"{n} arbitrary events, epochs from 2^28 on"))
    hs.append(Harness("roundtrip_small_epochs", roundtrip_body, dict(n=1, container="list", epochs=(0, (1 << 28) - 1)),
                      bounds="1 arbitrary event, epochs below 2^28"))
    hs.append(Harness("roundtrip_wide_epochs", roundtrip_wide_body, {}, bounds="1 arbitrary event, epochs below 2^40"))
    hs.append(Harness("mismatch", mismatch_body, {}, bounds="two times, one detector"))
    return hs


def roundtrip_wide_body(env):
    """Epoch numbers beyond 32 bits are reduced to their low 32 bits."""
    pe, R = env.mod(PE), env.mod(CO).TSRES
    e = env.bits("epoch", 40)
    env.assume(((e >> 28) & 15) > 0)
    t, x = env.bits("t", 37), env.int("d", 1, 15)
    target = pe.write_T1(env.mkdir("out"), e, [t], [x])
    tt, dd = pe.read_T1(target, full_epoch=True, resolution=R.PS4, fractional=False)
    env.check("low 32 bits of the epoch", same_list(vals(tt), [((e & MASK32) << 37) + t]))
    env.check("detector", same_list(vals(dd), [x]))


# ------------------------------------------------------------------------ E02
def t1_body(env):
    pe, pt, R = env.mod(PE), env.mod(PT), env.mod(CO).TSRES
    p = env.p
    n = p["n"]
    epoch = env.int("epoch", *p["epochs"])
    W = [env.bits(f"w{i}", 64) for i in range(n)]
    for w in W:
        env.assume(w != 0)
    f = env.write(name_of(epoch), t1_file(epoch, W, n if p["length"] else 0))
    raw_f = env.write("raw.dat", words32([x for w in W for x in (w >> 32, w & MASK32)]))
    msb = epoch >> 17
    for res, frac in p["kinds"]:
        k = SHIFT[res]
        tag = f"{res} {'fractional' if frac else 'integer'}"
        r = getattr(R, res)
        t, d = pe.read_T1(f, resolution=r, fractional=frac)
        a, b = pt.read_a1(raw_f, legacy=True, resolution=r, fractional=frac)
        env.check(f"{tag}: same number of events", len(t) == n and len(d) == n)
        env.check(f"{tag}: same timestamps as the raw file", same_list(vals(t), vals(a)))
        env.check(f"{tag}: same patterns as the raw file", same_list(vals(d), vals(b)))
        if frac:
            env.check(f"{tag}: timestamps", same_list(vals(t), [scaled(w >> 10, -k) for w in W]))
        else:
            env.check(f"{tag}: timestamps", same_list(vals(t), [w >> (10 + k) for w in W]))
        env.observe("t " + tag, t)
        env.observe("d " + tag, d)
        t, d = pe.read_T1(f, full_epoch=True, resolution=r, fractional=frac)
        if frac:
            env.check(f"{tag} full: within half of 125 ps",
                      close_floats(vals(t), [scaled((msb << 54) + (w >> 10), -k) for w in W], Flt(16, -k)))
        else:
            env.check(f"{tag} full: exact", same_list(vals(t), [((msb << 54) + (w >> 10)) >> k for w in W]))
        env.check(f"{tag} full: patterns", same_list(vals(d), [w & 15 for w in W]))
        env.observe("ft " + tag, t)
    env.reach("read")


def t1_default_body(env):
    pe = env.mod(PE)
    epoch = env.int("epoch", 1 << 28, MASK32)
    W = [env.bits(f"w{i}", 64) for i in range(2)]
    for w in W:
        env.assume(w != 0)
    f = env.write(name_of(epoch), t1_file(epoch, W, 2))
    t, d = pe.read_T1(f)
    env.check("default: ns, without epoch", same_list(vals(t), [scaled(w >> 10, -8) for w in W]))
    env.check("default: patterns", same_list(vals(d), [w & 15 for w in W]))


KINDS = [(r, f) for r in SHIFT for f in (True, False)]


def E02(tier):
    hs = []
    for n in (1, 2, 4) if tier == "quick" else (1, 2, 3, 4, 6, 10):
        for kinds in ([KINDS[:2], KINDS[2:4], KINDS[4:]]):
            hs.append(Harness(f"t1_{kinds[0][0]}_n{n}", t1_body, dict(n=n, epochs=(1 << 28, MASK32), kinds=kinds, length=n % 2 == 0),
                              bounds=f"{n} arbitrary non-zero event words, epochs from 2^28 on"))
    hs.append(Harness("t1_small_epochs", t1_body, dict(n=1, epochs=(0, (1 << 28) - 1), kinds=[("NS1", False), ("PS4", False)], length=True),
                      bounds="1 event, epochs below 2^28"))
    hs.append(Harness("t1_default", t1_default_body, {}, bounds="2 events, default arguments"))
    return hs


# ---------------------------------------------------------- E03: inconsistent
def pack_bits(fields):
    """Words of a bit stream: (value, width) most significant bit first."""
    acc, size = 0, 0
    for v, w in fields:
        acc = (acc << w) | v
        size += w
    n = -(-size // 32)
    acc = acc << (32 * n - size)
    return [(acc >> (32 * (n - 1 - i))) & MASK32 for i in range(n)]


def stream(env, layout, tb, bb, tag=""):
    """Events of a T2/T4 stream; layout: 's' short, 'x' extended."""
    fields, deltas, bases = [], [], []
    for i, kind in enumerate(layout):
        if kind == "s":
            d = env.int(f"{tag}d{i}", 2, (1 << tb) - 1)
            fields.append((d, tb))
        else:
            d = env.bits(f"{tag}x{i}", 32)
            fields += [(0, tb), (d, 32)]
        b = env.bits(f"{tag}b{i}", bb) if bb else 0
        fields.append((b, bb))
        deltas.append(d)
        bases.append(b)
    return fields, deltas, bases


def t2_file(epoch, length, tb, bb, fields):
    return words32([0x102, epoch, length, tb, bb, 0] + pack_bits(fields))


def t4_file(epoch, length, tb, bb, fields):
    return words32([0x104, epoch, length, tb, bb] + pack_bits(fields))


def t1_length_body(env):
    """Arbitrary words (a zero word terminates), any length in the header."""
    pe, R = env.mod(PE), env.mod(CO).TSRES
    n = env.p["n"]
    L = env.bits("length", 32)
    W = [env.bits(f"w{i}", 64) for i in range(n)]
    f = env.write("abcdef01", t1_file(0xABCDEF01, W, L, end=env.p["end"]))
    r = env.call(pe.read_T1, f, resolution=R.PS4, fractional=False, expect=(ValueError,))
    count = 0
    for w in W:
        if w == 0:
            break
        count += 1
    env.check("rejected exactly if the number of events differs from a non-zero length",
              IFF(r.is_exc(ValueError), AND(L != 0, L != count)))
    if r.exc is None:
        t, d = r.value
        env.check("events up to the terminator", same_list(vals(t), [w >> 10 for w in W[:count]]))
        env.check("patterns up to the terminator", same_list(vals(d), [w & 15 for w in W[:count]]))
    env.reach("accepted" if r.exc is None else "rejected")


def t1_cut_body(env):
    """A file ending within an event is rejected."""
    pe, R = env.mod(PE), env.mod(CO).TSRES
    p = env.p
    W = [env.bits(f"w{i}", 64) for i in range(p["n"])]
    for w in W:
        env.assume(w != 0)
    data = t1_file(0xABCDEF01, W, env.bits("length", 32), end=())
    f = env.write("abcdef01", data[:20 + p["keep"]])
    r = env.call(pe.read_T1, f, resolution=R.PS4, fractional=False, expect=(ValueError,))
    env.check("a file ending within an event is rejected", r.is_exc(ValueError))


def stream_file(env, pe, kind, fields, L, tb, bb, epoch=0xABCDEF01, cut=None):
    data = (t2_file if kind == "T2" else t4_file)(epoch, L, tb, bb, fields)
    if cut is not None:
        data = data[:len(data) - cut]
    return env.write(name_of(epoch), data)


def stream_length_body(env):
    """Any header length, any terminator base bits."""
    pe, R = env.mod(PE), env.mod(CO).TSRES
    p = env.p
    tb, bb = p["widths"]
    L = env.bits("length", 32)
    fields, deltas, bases = stream(env, p["layout"], tb, bb)
    end = env.bits("end", bb) if bb else 0
    f = stream_file(env, pe, p["kind"], fields + [(1, tb), (end, bb)], L, tb, bb)
    kw = dict(resolution=R.PS125, fractional=False) if p["kind"] == "T2" else {}
    r = env.call(getattr(pe, "read_" + p["kind"]), f, expect=(ValueError,), **kw)
    n = len(p["layout"])
    env.check("rejected exactly if the length is inconsistent or the terminator has base bits",
              IFF(r.is_exc(ValueError), OR(AND(L != 0, L != n), end != 0)))
    if r.exc is None:
        env.check("number of events returned", len(r.value[0]) == n and len(r.value[1]) == n)
        env.check("bases returned", same_list(vals(r.value[1]), bases))
    env.reach("accepted" if r.exc is None else "rejected")


def stream_cut_body(env):
    """A stream ending before its terminator is rejected."""
    pe, R = env.mod(PE), env.mod(CO).TSRES
    p = env.p
    tb, bb = p["widths"]
    fields, deltas, bases = stream(env, p["layout"], tb, bb)
    f = stream_file(env, pe, p["kind"], fields + [(1, tb), (0, bb)], env.bits("length", 32), tb, bb, cut=p["cut"])
    r = env.call(getattr(pe, "read_" + p["kind"]), f, expect=(ValueError,))
    env.check("a file ending before its terminator is rejected", r.is_exc(ValueError))


def layouts(n):
    import itertools
    return ["".join(x) for x in itertools.product("sx", repeat=n)]


def E03(tier):
    hs = []
    quick = tier == "quick"
    for n in (0, 1, 2, 3) if quick else (0, 1, 2, 3, 4, 6, 8):
        hs.append(Harness(f"t1_length_n{n}", t1_length_body, dict(n=n, end=(0, 0)),
                          bounds=f"{n} arbitrary words (zero included), any header length"))
        hs.append(Harness(f"t1_noend_n{n}", t1_length_body, dict(n=n, end=()),
                          bounds=f"{n} arbitrary words without terminator, any header length"))
    for n, keep in [(1, k) for k in (range(1, 8) if not quick else (4, 7))] + [(2, 12), (3, 20)]:
        hs.append(Harness(f"t1_cut_{n}_{keep}", t1_cut_body, dict(n=n, keep=keep), bounds=f"{n} events, body cut to {keep} bytes"))
    for kind in ("T2", "T4"):
        for widths in ((8, 2), (17, 4), (5, 1)) if quick else ((8, 2), (17, 4), (5, 1), (31, 1), (2, 0), (3, 8), (12, 3), (20, 11)):
            for lay in ("", "s", "x", "ss", "sx", "sss") if quick else sum((layouts(k) for k in range(4)), []) + ["ssss", "xxxx", "sssssss"]:
                hs.append(Harness(f"{kind.lower()}_length_{widths[0]}_{widths[1]}_{lay or 'none'}", stream_length_body,
                                  dict(kind=kind, widths=widths, layout=lay),
                                  bounds=f"{len(lay)} events ({lay}), {widths[0]} time bits, {widths[1]} base bits, any length and terminator"))
        for widths, lay, cut in (((8, 2), "ss", 4), ((17, 4), "sx", 4), ((17, 4), "sss", 8), ((8, 4), "sss", 1), ((8, 4), "sss", 3), ((8, 2), "", 4)):
            hs.append(Harness(f"{kind.lower()}_cut_{widths[0]}_{widths[1]}_{lay}_{cut}", stream_cut_body,
                              dict(kind=kind, widths=widths, layout=lay, cut=cut), path_timeout=15, replay_timeout=8,
                              bounds=f"{len(lay)} events ({lay}), last {cut} bytes missing"))
    return hs


# ------------------------------------------------------------- E04, E05: T2
def t2_body(env):
    pe, R = env.mod(PE), env.mod(CO).TSRES
    p = env.p
    tb, bb = p["widths"]
    epoch = env.int("epoch", *p["epochs"])
    fields, deltas, bases = stream(env, p["layout"], tb, bb)
    n = len(p["layout"])
    f = stream_file(env, pe, "T2", fields + [(1, tb), (0, bb)], n if p.get("length") else 0, tb, bb, epoch=epoch)
    low, msb = (epoch & 0x1FFFF) << 32, epoch >> 17
    T, acc = [], low
    for d in deltas:
        acc = acc + d
        T.append(acc)
    if any(full for _, _, full in p["kinds"]):
        env.assume(T[-1] - low <= MASK32)        # the events lie within the epoch
    for res, frac, full in p["kinds"]:
        k = SHIFT2[res]
        tag = f"{res} {'fractional' if frac else 'integer'}{' full' if full else ''}"
        t, d = pe.read_T2(f, full_epoch=full, resolution=getattr(R, res), fractional=frac)
        X = [(msb << 49) + v for v in T] if full else T
        if frac:
            want = [scaled(v, -k) for v in X]
        elif k >= 0:
            want = [v >> k for v in X]
        else:
            want = [v << -k for v in X]
        env.check(f"{tag}: number of events", len(t) == n and len(d) == n)
        env.check(f"{tag}: timestamps", same_list(vals(t), want))
        env.check(f"{tag}: bases", same_list(vals(d), bases))
        env.observe("t " + tag, t)
        env.observe("b " + tag, d)
    env.reach("read")


WIDTHS_Q = [(8, 2), (17, 4), (31, 1), (3, 8)]
WIDTHS_T = [(tb, bb) for tb in (2, 3, 5, 8, 12, 16, 17, 20, 24, 29, 31) for bb in (0, 1, 2, 3, 4, 8) if tb + bb <= 32]
EPOCHS = (1 << 28, MASK32)


def E04(tier):
    hs = []
    quick = tier == "quick"
    kinds = [("PS125", False, False)]
    for w in WIDTHS_Q if quick else WIDTHS_T:
        for lay in (layouts(1) + layouts(2) + ["sss", "sxs", "xsx", "sssss"]) if quick else sum((layouts(k) for k in (1, 2, 3)), []) + ["ssssss", "xsxsx", "ssssssssssss"]:
            hs.append(Harness(f"t2_{w[0]}_{w[1]}_{lay}", t2_body, dict(widths=w, layout=lay, epochs=EPOCHS, kinds=kinds, length=len(lay) % 2),
                              bounds=f"{len(lay)} events ({lay}: s short, x extended), {w[0]} time bits, {w[1]} base bits, any differences and bases"))
    hs.append(Harness("t2_none", t2_body, dict(widths=(8, 2), layout="", epochs=EPOCHS, kinds=kinds), bounds="no event"))
    hs.append(Harness("t2_small_epochs", t2_body, dict(widths=(8, 2), layout="sx", epochs=(0, (1 << 28) - 1), kinds=kinds), bounds="2 events, epochs below 2^28"))
    return hs


KINDS2 = [(r, f, full) for r in SHIFT2 for f in (True, False) for full in (False, True)]


def t2_default_body(env):
    pe = env.mod(PE)
    epoch = env.int("epoch", *EPOCHS)
    fields, deltas, bases = stream(env, "sx", 9, 3)
    f = stream_file(env, pe, "T2", fields + [(1, 9), (0, 3)], 2, 9, 3, epoch=epoch)
    t, d = pe.read_T2(f)
    a = ((epoch & 0x1FFFF) << 32) + deltas[0]
    env.check("default: ns, without epoch", same_list(vals(t), [scaled(a, -3), scaled(a + deltas[1], -3)]))
    env.check("default: bases", same_list(vals(d), bases))


def E05(tier):
    hs = []
    quick = tier == "quick"
    for res in SHIFT2:
        kinds = [k for k in KINDS2 if k[0] == res]
        for lay in ("s", "x", "sx", "xxx") if quick else sum((layouts(k) for k in (1, 2, 3)), []) + ["sxsxsx", "xxxxx"]:
            hs.append(Harness(f"t2_{res}_{lay}", t2_body, dict(widths=(17, 4), layout=lay, epochs=EPOCHS, kinds=kinds, length=True),
                              bounds=f"{len(lay)} events ({lay}), all output kinds at {res}, epochs from 2^28 on"))
    hs.append(Harness("t2_default", t2_default_body, {}, bounds="2 events, default arguments"))
    return hs


# --------------------------------------------------------------------- E06: T4
def t4_body(env):
    pe = env.mod(PE)
    p = env.p
    tb, bb = p["widths"]
    epoch = env.int("epoch", *EPOCHS)
    fields, deltas, bases = stream(env, p["layout"], tb, bb)
    n = len(p["layout"])
    f = stream_file(env, pe, "T4", fields + [(1, tb), (0, bb)], n if p.get("length") else 0, tb, bb, epoch=epoch)
    want, acc = [], 0
    for d in deltas:
        acc = acc + d - 2
        want.append(acc)
    t, d = pe.read_T4(f)
    env.check("number of events", len(t) == n and len(d) == n)
    env.check("indices", same_list(vals(t), want))
    env.check("bases", same_list(vals(d), bases))
    env.observe("t", t)
    env.observe("b", d)
    h = pe.read_T4_header(f)
    env.check("header", AND(EQ(h.epoch, epoch), EQ(h.timeorder, tb), EQ(h.base_bits, bb)))


def E06(tier):
    hs = []
    quick = tier == "quick"
    for w in WIDTHS_Q if quick else WIDTHS_T:
        for lay in (layouts(1) + layouts(2) + ["sss", "sxs", "xsx", "sssss"]) if quick else sum((layouts(k) for k in (1, 2, 3)), []) + ["ssssss", "xsxsx", "ssssssssssss"]:
            hs.append(Harness(f"t4_{w[0]}_{w[1]}_{lay}", t4_body, dict(widths=w, layout=lay, length=len(lay) % 2),
                              bounds=f"{len(lay)} events ({lay}: s short, x extended), {w[0]} time bits, {w[1]} base bits, any differences and bases"))
    hs.append(Harness("t4_none", t4_body, dict(widths=(8, 2), layout=""), bounds="no event"))
    return hs


# --------------------------------------------------------------------- E07: T3
def total(cs):
    r = 0
    for c in cs:
        r = ITE(c, r + 1, r)
    return r


def t3_body(env):
    pe = env.mod(PE)
    p = env.p
    n = p["n"]
    epoch = 0xABCDEF01
    if p.get("valid"):
        # one detector on each side
        def one(x):
            return ITE(x == 0, 1, ITE(x == 1, 2, ITE(x == 2, 4, 8)))
        A = [one(env.int(f"a{i}", 0, 3)) for i in range(n)]
        B = [one(env.int(f"b{i}", 0, 3)) for i in range(n)]
    else:
        A = [env.bits(f"a{i}", 4) for i in range(n)]
        B = [env.bits(f"b{i}", 4) for i in range(n)]
    dets = [(a << 4) | b for a, b in zip(A, B)] + [0] * (-n % 4)
    words = [(dets[i] << 24) | (dets[i + 1] << 16) | (dets[i + 2] << 8) | dets[i + 3] for i in range(0, len(dets), 4)]
    f = env.write(name_of(epoch), words32([0x103, epoch, n, 8] + words))
    r = pe.read_T3(f)
    m = [raw(x) for x in r.coinc_matrix]
    env.check("16 cells", len(m) == 16)
    bit = (1, 2, 4, 8)
    cell = [total([AND(a == bit[i], b == bit[j]) for a, b in zip(A, B)]) for i in range(4) for j in range(4)]
    ok = total([AND(OR(*[a == x for x in bit]), OR(*[b == x for x in bit])) for a, b in zip(A, B)])
    env.check("each pair of single-bit detections is in its matrix cell once", same_list(m, cell))
    env.check("ok count is the matrix total", EQ(r.okcount, ok))
    env.check("garbage of Alice", EQ(r.garbage[0], total([NOT(OR(*[a == x for x in bit])) for a in A])))
    env.check("garbage of Bob", EQ(r.garbage[1], total([NOT(OR(*[b == x for x in bit])) for b in B])))
    er = cell[0] + cell[5] + cell[10] + cell[15]
    gd = cell[2] + cell[7] + cell[8] + cell[13]
    cs = []
    for e in range(n + 1):
        for g in range(n + 1 - e):
            q = float(round(e / (e + g), 3)) if e + g else 0.5
            cs.append(IMPL(AND(er == e, gd == g), EQ(r.qber, to_flt(q))))
    env.check("QBER is the rounded error fraction", AND(*cs))
    env.check("header", AND(EQ(r.head.epoch, epoch), EQ(r.head.length_entry, n)))
    env.observe("matrix", m)
    env.observe("garbage", [raw(x) for x in r.garbage])
    env.observe("qber", raw(r.qber))
    env.reach("read")


def E07(tier):
    hs = []
    for n in (0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4, 5):
        hs.append(Harness(f"t3_n{n}", t3_body, dict(n=n), witness=30, bounds=f"{n} arbitrary detection bytes"))
    for n in (4,) if tier == "quick" else (4, 5, 6):
        hs.append(Harness(f"t3_valid_n{n}", t3_body, dict(n=n, valid=True), witness=30,
                          bounds=f"{n} detection bytes with one detector on each side"))
    return hs


# -------------------------------------------------------------------- E08: names
def names_body(env):
    pe = env.mod(PE)
    v = env.int("epoch", *env.p["range"])
    name = pe.int2epoch(v)
    env.check("name is the hex number without prefix", env.same_text(name, name_of(v)))
    env.check("name -> number", EQ(pe.epoch2int(name), v))
    env.check("number -> name -> number -> name", env.same_text(pe.int2epoch(pe.epoch2int(name)), name))
    env.observe("number", pe.epoch2int(name))


def date_body(env):
    """The epoch of a date contains the date's whole second."""
    pe = env.mod(PE)
    lo, hi = env.p["range"]
    s = env.int("second", lo, hi)
    fr = env.bits("fraction", 20)

    class When:
        def timestamp(self):
            x = to_flt(s) + Flt(fr, -20)
            return x if env.sym else float(Fraction(s) + Fraction(fr, 1 << 20))
    name = pe.date2epoch(When())
    n = (s * 8000000000) >> 32
    env.check("epoch interval contains the whole second", EQ(pe.epoch2int(name), n))
    env.check("eight hex digits", env.same_text(name, format(n, "08x")))
    env.observe("epoch", pe.epoch2int(name))


def now_body(env):
    """Without a date, the epoch is the current one."""
    import time
    pe = env.mod(PE)
    a = (int(time.time()) * 8000000000) >> 32
    name = pe.date2epoch()
    b = (int(time.time()) * 8000000000) >> 32
    n = env.number(name, "i", 16)
    env.check("eight hex digits", env.same_text(name, format(n, "08x")))
    env.check("the current epoch", AND(n >= a, n <= b))


class FakeDatetime:
    """datetime stand-in whose dates are the given seconds."""

    class datetime:
        def __init__(self, x):
            self.x = x

        @classmethod
        def fromtimestamp(cls, x, tz=None):
            return cls(x)

        def timestamp(self):
            return self.x


def fake_datetime(world):
    world.stubs["datetime"] = FakeDatetime


def epoch_body(env):
    """The date of an epoch is its start to within a microsecond."""
    pe = env.mod(PE)
    v = env.integer("epoch", *env.p["range"])
    d = pe.epoch2date(name_of(v))
    x = d.timestamp()
    if env.sym:
        # |x - v * 2^32 / 8e9| <= 0.52 us; the datetime type adds up to 0.5 us
        y = x.r * 8000000000 - v.r * (1 << 32)
        env.check("date is the start of the epoch", mkbool(z3.And(y <= 4160, -y <= 4160)))
    else:
        y = Fraction(float(x)) * 8000000000 - (v << 32)
        env.check("date is the start of the epoch", abs(y) <= 8000 + 2000)


def E08(tier):
    hs = []
    for lo, hi in ((0, 0xFF), (0x100, (1 << 28) - 1), (1 << 28, MASK32)):
        hs.append(Harness(f"names_{lo:x}", names_body, dict(range=(lo, hi)), bounds=f"every epoch number in [{lo:#x}, {hi:#x}]"))
    for k in range(20, 32):
        hs.append(Harness(f"date_2p{k}", date_body, dict(range=(1 << k if k > 20 else 0, min((2 << k) - 1, 2305843008))),
                          bounds=f"every second in [2^{k}, 2^{k + 1}), every fraction in steps of 2^-20 s"))
    hs.append(Harness("now", now_body, {}, bounds="the clock at the time of the check"))
    for lo, hi in ((0, MASK32),):
        hs.append(Harness(f"epoch_{lo:x}", epoch_body, dict(range=(lo, hi)), prepare=fake_datetime,
                          bounds=f"every epoch number in [{lo:#x}, {hi:#x}]"))
    return hs


# ------------------------------------------------------------- E09: directories
def overlap_body(env):
    ut = env.mod(UT)
    p = env.p
    lo, hi = p["range"]
    if p.get("window"):
        base = env.int("base", lo, hi - p["window"])
        A = [base + i for i in range(p["window"]) if env.pick(f"a{i}", [True, False])]
        B = [base + i for i in range(p["window"]) if env.pick(f"b{i}", [True, False])]
        B = B[1:] + B[:1]                      # directory order is arbitrary
    else:
        A = [env.int(f"a{i}", lo, hi) for i in range(p["n"][0])]
        B = [env.int(f"b{i}", lo, hi) for i in range(p["n"][1])]
        for X in (A, B):
            for i in range(len(X)):
                for j in range(i):
                    env.assume(X[i] != X[j])
    d1, d2 = env.mkdir("d1"), env.mkdir("d2")
    for d, X in (("d1", A), ("d2", B)):
        for x in X:
            env.write(f"{d}/{name_of(x)}", [])
    first = env.int("first", lo, hi) if p["first"] else None
    kw = {} if first is None else dict(first_epoch=name_of(first))
    name, n = ut.get_first_overlapping_epoch(d1, d2, return_length=True, **kw)
    alone = ut.get_first_overlapping_epoch(d1, d2, **kw)

    def common(v, bounded=True):
        c = AND(OR(*[v == a for a in A]), OR(*[v == b for b in B]))
        return AND(c, v >= first) if first is not None and bounded else c
    if name is None:
        env.check("none only without a common epoch", NOT(OR(*[common(a) for a in A])))
        env.check("no common epoch has length zero", EQ(n, 0))
        env.check("same answer without the length", alone is None)
        env.reach("none")
        return
    e = env.number(name, "i", 16)
    env.check("name is plain hex", env.same_text(name, name_of(e)))
    env.check("epoch is in both directories, not below the requested one", common(e))
    env.check("no smaller one qualifies", AND(*[IMPL(common(a), e <= a) for a in A]))
    k = int(n)
    env.check("the run is common", AND(*[common(e + i) for i in range(k)]))
    env.check("the run is as long as possible", AND(k >= 1, NOT(common(e + k))))
    env.check("same answer without the length", alone is not None and env.same_text(alone, name))
    env.observe("epoch", e)
    env.observe("length", k)
    env.reach("found")


def E09(tier):
    hs = []
    quick = tier == "quick"
    big = (1 << 28, MASK32)
    for n in ((0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (2, 2)) if quick else ((0, 2), (2, 0), (1, 1), (2, 2), (3, 1), (1, 3), (3, 2), (2, 3), (3, 3)):
        for first in (False, True):
            hs.append(Harness(f"any_{n[0]}_{n[1]}_{'first' if first else 'all'}", overlap_body, dict(n=n, range=big, first=first), witness=20,
                              bounds=f"{n[0]} and {n[1]} arbitrary distinct epochs from 2^28 on"))
    for w in (3,) if quick else (3, 4, 5):
        for first in (False, True):
            hs.append(Harness(f"window_{w}_{'first' if first else 'all'}", overlap_body, dict(window=w, range=big, first=first), witness=20,
                              bounds=f"every pair of subsets of {w} consecutive epochs anywhere from 2^28 on"))
    hs.append(Harness("window_names", overlap_body, dict(window=2, range=(0xFD, 0x102), first=True), witness=20,
                      bounds="subsets of 2 consecutive epochs where the name grows a digit"))
    return hs


# ------------------------------------------------------ E10: consecutive epochs
def series_body(env):
    """Both readers over the same epochs: order and common time axis."""
    ut = env.mod(UT)
    p = env.p
    lo, hi = p["epochs"]
    counts = p["counts"]                      # events per epoch
    skip, num = p["skip"], p["num"]
    first = env.int("first", lo, hi)
    tb, bb = 17, 4
    true = {"T1": [], "T2": []}
    for kind in p["kinds"]:
        d = env.mkdir("dir" + kind)
        for i in range(len(counts)):
            e = first + i
            load = skip <= i < skip + num
            if kind == "T1":
                T = [env.bits(f"t{i}_{j}", 37) for j in range(counts[i])]
                data = t1_file(e, [t1_event(e, t, 1 + j % 4) for j, t in enumerate(T)], counts[i])
                if load:
                    true[kind] += [(e << 37) + t for t in T]
            else:
                fields, deltas, bases = stream(env, "x" * counts[i], tb, bb, tag=f"e{i}")
                acc = 0
                for j, x in enumerate(deltas):
                    acc = acc + x
                    if load:
                        true[kind].append((e << 37) + (acc << 5))
                if counts[i] > 1:
                    env.assume(acc <= MASK32)        # the events lie within their epoch
                data = t2_file(e, counts[i], tb, bb, fields + [(1, tb), (0, bb)])
            env.write(f"dir{kind}/{name_of(e)}", data)
    got, want = [], []
    for kind in p["kinds"]:
        t = ut.get_timestamp(env.path("dir" + kind), kind, name_of(first), skip, num)
        env.check(f"{kind}: events of exactly the requested epochs", len(t) == len(true[kind]))
        got += vals(t)
        want += true[kind]
        env.observe(kind, t)
    env.check("true time differences in ns", AND(*[
        EQ(f_sub(to_flt(g), to_flt(got[0]), 4000), scaled(w - want[0], -8)) for g, w in zip(got, want)])
        if len(got) == len(want) else False)
    env.reach("read")


def E10(tier):
    hs = []
    quick = tier == "quick"
    big = (1 << 28, MASK32 - 8)
    cases = [((1, 1), 0, 2), ((2, 1), 0, 1), ((1, 1, 1), 1, 2), ((2, 0, 1), 0, 3), ((1, 1, 2, 1), 1, 2)]
    if not quick:
        cases += [((2, 2), 0, 2), ((1, 1, 1, 1, 1), 2, 3), ((1,) * 6, 0, 6), ((3, 3, 3), 0, 3), ((1, 2, 3, 4), 3, 1)]
    for kind in ("T1", "T2"):
        for counts, skip, num in cases:
            hs.append(Harness(f"{kind.lower()}_{''.join(map(str, counts))}_skip{skip}_n{num}", series_body,
                              dict(kinds=(kind,), counts=counts, skip=skip, num=num, epochs=big),
                              bounds=f"{len(counts)} consecutive epochs from any epoch from 2^28 on with {counts} arbitrary events"))
    for counts, skip, num in cases[:3] if quick else cases:
        hs.append(Harness(f"both_{''.join(map(str, counts))}_skip{skip}_n{num}", series_body,
                          dict(kinds=("T2", "T1"), counts=counts, skip=skip, num=num, epochs=big),
                          bounds="reference (T2) and target (T1) over the same epochs"))
    hs.append(Harness("t1_name_grows", series_body, dict(kinds=("T1",), counts=(1, 1, 1), skip=0, num=3, epochs=(0xFFFFE, 0xFFFFF)),
                      bounds="epochs where the name grows a digit"))
    return hs


PROPS = {k: v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "E" and k[1:].isdigit()}

ASSUME = ["numpy primitives behave as re-implemented in vlib/symnp.py (every path's witness is replayed on the real numpy)",
          "long double is x87 80-bit, as on this platform",
          "epoch files hold whole words and end in a terminator unless the harness says otherwise"]


def check(pid, tier, seed, only):
    return report.check(pid, PROPS[pid](tier), tier, seed, only, budget=100 if tier == "quick" else 600, assumptions=ASSUME)


def replay(v):
    return report.replay(v, PROPS[v["property"]](v.get("tier", "quick")))
