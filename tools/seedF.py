FP="fpfind.py"; UT="lib/utils.py"; LG="lib/logging.py"; GE="lib/generate_freqcd_testcase.py"; PL="fpplot.py"
H='''import os, sys, tempfile, struct, io, types
import numpy as np
d = tempfile.mkdtemp(); os.chdir(d)
def done(ok, msg=""):
    import shutil; os.chdir("/"); shutil.rmtree(d, ignore_errors=True)
    print("ok" if ok else "BROKEN " + str(msg), file=sys.stderr); sys.exit(0 if ok else 1)
'''
F=H+'''
import importlib; fp = importlib.import_module("fpfind.fpfind")
def main(argv):
    out = io.StringIO(); old = sys.stdout, sys.argv
    sys.stdout, sys.argv = out, ["fpfind"] + argv
    try: fp.main()
    finally: sys.stdout, sys.argv = old
    return out.getvalue()
'''
BUGS=[
dict(id="f01-shift-after-scale", property="F01",
 edits=[(FP,"bts = (bts - dt1) / (1 + df1)","bts = bts / (1 + df1) - dt1")],
 demo=F+'''
# stand-ins: the peak of the n-th correlation is given
class S: significance = 50
delays = iter([90000.0, 90001.0, 0.0, 0.0])
seen = []
fp.generate_fft = lambda a, n, r: seen.append(a) or a
fp.get_xcorr = lambda a, b: np.zeros(4)
fp.get_timing_delay_fft = lambda y, x: (next(delays), 0)
fp.get_statistics = lambda *a, **k: S
a = np.array([0., 100000., 10**7]); b = a + 90000
dt, df = fp.time_freq(a, b, 1, 4096, 4, 1, 6, 6 * 4 * 4096)
got = seen[5][0]; want = (b[0] - 90000.0) / (1 + 1.0 / (6 * 4 * 4096))
done(abs(got - want) < 0.5, (got, want))
''', needs="a second iteration after one that found both a time and a frequency offset", breaks="the refined series is not the one described by the accumulated offsets"),
dict(id="f02-negative-delay", property="F02",
 edits=[(FP,"if abs(dt1) > NTP_MAXDELAY_NS:","if dt1 > NTP_MAXDELAY_NS:")],
 demo=F+'''
class S: significance = 50
fp.generate_fft = lambda a, n, r: a
fp.get_xcorr = lambda a, b: np.zeros(4)
fp.get_timing_delay_fft = lambda y, x: (-2e8, 0)
fp.get_statistics = lambda *a, **k: S
a = np.array([0., 100., 10**7])
try:
    r = fp.time_freq(a, a, 1, 4, 4, 4, 6, 96); done(False, r)
except ValueError:
    done(True)
''', needs="a negative delay beyond 100 ms", breaks="such a delay is accepted"),
dict(id="f03-linear-precompensation", property="F03",
 edits=[(FP,"        f *= (1 + df1)\n        logger.debug(\"  Applied another","        f += df1\n        logger.debug(\"  Applied another")],
 demo=F+'''
fp.time_freq = lambda *a, **k: (0.0, 1e-4)
a = np.array([0., 1.])
dt, df = fp.fpfind(a, a, 1, 4, 1, 1, 6, 10, [1e-2])
done(abs(df - ((1 + 1e-2) * (1 + 1e-4) - 1)) < 1e-9, df)
''', needs="a peak found at a large precompensation", breaks="the product term of precompensation and correction is dropped"),
dict(id="f04-ordered-start", property="F04",
 edits=[(FP,"df0s = np.arange(0, int((stop-start) // step + 1))  # conventional","df0s = np.arange(0, int((stop-abs(start)) // step + 1))  # conventional")],
 demo=F+'''
r = list(fp.generate_precompensations(-2.0, 4.0, 2.0, ordered=True))
done(r == [-2, 0, 2, 4], r)
''', needs="an ordered list with a negative start value", breaks="the list ends before the stop value"),
dict(id="f05-truncated-units", property="F05",
 edits=[(FP,'df = f"{round(df * (1 << 34)):d}"','df = f"{int(df * (1 << 34)):d}"')],
 demo=F+'''
fp.read_a1 = lambda *a, **k: (np.array([1., 2.]), None)
fp.fpfind = lambda *a, **k: (0.0, -1.75 / (1 << 34))
r = main(["-t", "x", "-T", "y", "-V", "2"]).split()
done(r == ["-2", "0"], r)
''', needs="a frequency offset whose fraction in units of 2^-34 is above one half", breaks="the frequency is truncated instead of rounded"),
dict(id="f06-late-window", property="F06",
 edits=[(FP,"required_epochs = np.ceil(minimum_duration/EPOCH_LENGTH).astype(np.int32)","required_epochs = np.ceil((minimum_duration - Ta)/EPOCH_LENGTH).astype(np.int32)")],
 demo=F+'''
n = []
fp.get_first_overlapping_epoch = lambda *a, **k: ("5", 100)
fp.get_timestamp = lambda *a, **k: n.append(a[4] if len(a) > 4 else k["num_of_epochs"]) or np.array([1., 2.])
fp.fpfind = lambda *a, **k: (0.0, 0.0)
main(["-d", "x", "-D", "y", "-q", "26", "-R", "16"])
done(all(v >= 15 for v in n) and n, n)
''', needs="a correlation window longer than the spare epoch", breaks="the late window lies beyond the data read"),
dict(id="g01-modulus", property="G01",
 edits=[(GE,"timestamp = timestamp & 0x3FFFFFFFFFFFFF","timestamp = timestamp % 0x3FFFFFFFFFFFFF")],
 demo=H+'''
from fpfind.lib import generate_freqcd_testcase as g
r = struct.unpack("=Q", g.get_event((1 << 54) + 7, 3))[0]
done(r == (7 << 10) + 3, r)
''', needs="a timestamp of 2^54 or more", breaks="overflowing timestamps are reduced modulo 2^54 - 1"),
dict(id="l01-consumed-detail", property="L01",
 edits=[(LG,"text, details = details[0], details[1:]","text = details[0]; del details[0]")],
 demo=H+'''
import logging
from fpfind.lib.logging import LoggingOverrideFormatter as L
f = L(fmt="{levelname}\\t| {message}", style="{", human_readable=True)
r = logging.LogRecord("n", 20, "p", 1, "  ", (), None, "f"); r.details = ["a", "b"]
x, y = f.format(r), f.format(r)
done(x == y and r.details == ["a", "b"], (x, y))
''', needs="a blank message with details, logged to two handlers", breaks="the caller's list loses its first detail, which the second handler does not print"),
dict(id="x01-shift-after-scale", property="X01",
 edits=[(PL,"bob = (bob - time) / (1 + freq*1e-6)","bob = bob / (1 + freq*1e-6) - time")],
 demo=H+'''
rec = []
def mod(n, **k):
    m = types.ModuleType(n); m.__dict__.update(k); sys.modules[n] = m; return m
z = lambda *a, **k: None
p = mod("matplotlib.pyplot", plot=z, xlabel=z, ylabel=z, savefig=z, show=z); mod("matplotlib", pyplot=p)
s = mod("boiler.scriptutil"); l = mod("boiler.logging"); mod("boiler", scriptutil=s, logging=l)
g = mod("S15lib.g2lib.g2lib", histogram=lambda a, b, **k: rec.append(b) or ([], [])); h = mod("S15lib.g2lib", g2lib=g); mod("S15lib", g2lib=h)
from fpfind import fpplot
fpplot.plotter(np.array([0.]), np.array([1e8]), 100.0, 1e8, 1000)
done(abs(rec[0][0]) < 1e-3, rec)
''', needs="both a frequency and a large time offset", breaks="the time offset is applied unscaled"),
]
