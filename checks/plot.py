"""X01: fpplot plots the target series under the reported compensation."""
import argparse
import inspect
import sys
import types
from fractions import Fraction

import numpy as np

from checks.finder import exact, first_arg, floats, near, same_series
from vlib import report
from vlib.harness import AND, EQ, OR, Harness, raw, same_list, scaled, vals
from vlib.sym import Flt, to_real

PL = "fpfind.fpplot"
UT = "fpfind.lib.utils"


def module(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m


class Parser(argparse.ArgumentParser):
    """argparse with the two configuration file keywords accepted."""

    def __init__(self, *a, **k):
        super().__init__(*a, add_help=False)

    def add_argument_group(self, *a, **k):
        g = super().add_argument_group(*a, **k)
        add = g.add_argument
        g.add_argument = lambda *x, is_config_file_arg=None, is_write_out_config_file_arg=None, **y: add(*x, **y)
        return g


RECORD = []


def histogram(alice, bob, duration=None, *a, **k):
    RECORD.append((alice, bob, duration))
    return [], []


def nothing(*a, **k):
    return None


# modules that are not installed here, reduced to what fpplot uses
plt = module("matplotlib.pyplot", plot=nothing, xlabel=nothing, ylabel=nothing, savefig=nothing, show=nothing)
script = module("boiler.scriptutil", generate_default_parser=lambda *a, **k: Parser(), parse_args_or_help=lambda p, *a, **k: p.parse_args())
blog = module("boiler.logging", set_default_handlers=nothing, set_logging_level=nothing)
g2lib = module("S15lib.g2lib.g2lib", histogram=histogram)
MODULES = {"matplotlib": module("matplotlib", pyplot=plt), "matplotlib.pyplot": plt,
           "boiler": module("boiler", scriptutil=script, logging=blog), "boiler.scriptutil": script, "boiler.logging": blog,
           "S15lib": module("S15lib", g2lib=module("S15lib.g2lib", g2lib=g2lib)), "S15lib.g2lib": module("S15lib.g2lib", g2lib=g2lib),
           "S15lib.g2lib.g2lib": g2lib}


def stub_modules(world):
    world.stubs.update(MODULES)


def plotting(env):
    """The module, with the histogram recorded."""
    del RECORD[:]
    if env.sym:
        return env.mod(PL)
    old = {k: sys.modules.get(k) for k in MODULES}
    sys.modules.update(MODULES)
    try:
        return env.mod(PL)
    finally:
        for k, v in old.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v


def plotter_body(env):
    m = plotting(env)
    n = env.p["n"]
    lim = 1 << 50
    A = [env.real(f"a{i}", 0, lim) for i in range(n)]
    B = [env.real(f"b{i}", 0, lim) for i in range(n)]
    f = env.real("freq", -10 ** 5, 10 ** 5)                   # ppm
    t = env.real("time", -10 ** 10, 10 ** 10)
    w = env.real("width", 1, 10 ** 6)
    mk = lambda xs: env.array(xs, "float64") if env.sym else np.array([float(env.real_value(x)) for x in xs])
    a, b = mk(A), mk(B)
    m.plotter(a, b, env.real_value(f), env.real_value(t), env.real_value(w))
    env.check("one histogram", len(RECORD) == 1)
    x, y, d = RECORD[0]
    env.check("reference series as given", same_series(env, [exact(v) for v in vals(x)], A, lim))
    env.check("target series compensated", compensated(env, y, B, t, f, lim))
    env.check("histogram width", near(env, d, w, 1))


PPM = (Fraction(1e-6), Fraction(1, 10 ** 6))                  # the double and the exact value


def compensated(env, got, B, t, f, scale):
    got = [exact(v) for v in vals(got)]
    return OR(*[same_series(env, got, [(b - t) / (1 + f * u) for b in B], scale) for u in PPM])


def command_body(env):
    p = env.p
    m = plotting(env)
    log = []
    T1 = [7 * 10 ** 8, 9 * 10 ** 8, 6 * 10 ** 9]
    T2 = [3 * 10 ** 8, 8 * 10 ** 8, 5 * 10 ** 9, 9 * 10 ** 9]
    S1, S2 = (floats(env, [Fraction(x) for x in t]) for t in (T1, T2))

    def recorder(name, value):
        sig = inspect.signature(getattr(m, name))

        def g(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            log.append((name, b.arguments))
            return value(b.arguments)
        env.patch(m, name, g)
    side = lambda a: S1 if str(first_arg(a)) == "ref" else S2
    recorder("read_a1", lambda a: (side(a), None))
    recorder("get_timestamp", side)
    first = env.int("first", 0, (1 << 32) - 1)
    name = env.mod("fpfind.lib.parse_epochs").int2epoch(first)
    recorder("get_first_overlapping_epoch", lambda a: (name, 9) if a.get("return_length") else name)
    freq = env.real("freq", -10 ** 5, 10 ** 5)                # ppm
    time = env.real("time", -10 ** 10, 10 ** 10)
    dec = lambda v, k: env.dec(scaled(v, -k))
    argv = ["fpplot"] + (["-t", "ref", "-T", "tgt"] if p["files"] else ["-d", "ref", "-D", "tgt"])
    argv += [f"--freq={env.dec(freq)}", f"--time={env.dec(time)}", "--width", "250"]
    k = q = 0
    if p["files"]:
        k = env.int("skip", 0, 32)
        argv += ["-Z", dec(k, 3)] + (["-X"] if p["legacy"] else [])
    else:
        q, n = env.int("skipped", 0, 1 << 20), env.int("number", 1, 1 << 20)
        argv += ["-z", env.dec(q), "-n", env.dec(n), "-Z", "2"] + (["-e", "ba1f36c0"] if p["legacy"] else [])
    argv += p.get("stray", [])
    L = None
    if p["duration"]:
        L = env.int("duration", 1, 100)                       # eighths of a second
        argv += ["--duration", dec(L, 3)]
    r = env.main(m, argv)
    env.check("runs", r.exc is None)
    if p["files"]:
        rd = {str(first_arg(a)): a for _, a in log}
        env.check("both files read in the selected word order", set(rd) == {"ref", "tgt"} and all(
            n == "read_a1" and bool(a["legacy"]) == p["legacy"] for n, a in log))
    else:
        ts = {str(a["dirname"]): a for n, a in log if n == "get_timestamp"}
        env.check("both directories read", set(ts) == {"ref", "tgt"})
        ov = [a for n, a in log if n == "get_first_overlapping_epoch"]
        env.check("common epochs of both directories", len(ov) > 0 and all({str(a["dir1"]), str(a["dir2"])} == {"ref", "tgt"} for a in ov))
        env.check("requested first epoch", all(a["first_epoch"] == ("ba1f36c0" if p["legacy"] else None) for a in ov))
        for d, kind in (("ref", "T2"), ("tgt", "T1")):
            a = ts[d]
            env.check(f"{d}: epochs", AND(a["file_type"] == kind, EQ(env.number(a["first_epoch"], "i", 16) + raw(a["skip_epoch"]), first + q),
                                         EQ(a["num_of_epochs"], n)))
    base = 7 * 10 ** 8 + k * 125 * 10 ** 6
    keep = lambda t: [x - base for x in t if x >= base and (L is None or x - base < L * 125 * 10 ** 6)]
    A, B = keep(T1), keep(T2)
    env.check("one histogram", len(RECORD) == 1)
    x, y, d = RECORD[0]
    env.check("normalised reference series", same_list(vals(x), [Flt(v, 0) for v in A]))
    env.check("target series compensated", compensated(env, y, [conv(env, v) for v in B], time, freq, 10 ** 10))
    env.check("histogram width", EQ(d, 250))


def no_source_body(env):
    m = plotting(env)
    r = env.main(m, ["fpplot"] + env.p["argv"])
    env.check("refused", r.is_exc(SystemExit) and r.exc.code not in (0, None))
    env.check("nothing plotted", RECORD == [])


def conv(env, v):
    return to_real(v) if env.sym else Fraction(v)


def X01(tier):
    quick = tier == "quick"
    hs = []
    for n in (1, 2) if quick else (1, 2, 4):
        hs.append(Harness(f"plotter_{n}", plotter_body, dict(n=n), prepare=stub_modules, tolerance=True,
                          bounds=f"{n} events each at any times, any offsets"))
    for files in (True, False):
        for legacy in (False, True):
            for dur in (False, True):
                hs.append(Harness(f"command_{'files' if files else 'epochs'}{('_legacy' if files else '_first') if legacy else ''}{'_duration' if dur else ''}", command_body,
                                  dict(files=files, legacy=legacy, duration=dur), prepare=stub_modules, tolerance=True, witness=10,
                                  bounds="any offsets, skipped time or epochs and duration"))
    for stray in (["-d", "x"], ["-D", "x"]):
        hs.append(Harness(f"command_files_{stray[0][1:].replace('d', 'send').replace('D', 't1')}", command_body,
                          dict(files=True, legacy=False, duration=False, stray=stray), prepare=stub_modules, tolerance=True, witness=10,
                          bounds="both files and one of the two directories given; any offsets and skipped time"))
    for i, a in enumerate((["-t", "x"], ["-T", "x"], ["-d", "x"], ["-D", "x"], ["-t", "x", "-D", "x"], [])):
        hs.append(Harness(f"nosource_{i}", no_source_body, dict(argv=a), prepare=stub_modules, bounds="incomplete sources"))
    return hs


PROPS = {"X01": X01}

ASSUME = ["matplotlib, boiler and S15lib are not installed: they are replaced by modules that record the plotted series",
          "the compensation is an identity over exact reals (witnesses are replayed with floats)"]


def check(pid, tier, seed, only):
    return report.check(pid, PROPS[pid](tier), tier, seed, only, budget=100 if tier == "quick" else 600, assumptions=ASSUME)


def replay(v):
    return report.replay(v, PROPS[v["property"]](v.get("tier", "quick")))
