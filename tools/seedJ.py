PT="lib/parse_timestamps.py"; PE="lib/parse_epochs.py"; UT="lib/utils.py"; FP="fpfind.py"; PL="fpplot.py"; LG="lib/logging.py"; GE="lib/generate_freqcd_testcase.py"; F="freqcd.c"
import importlib.util, os
def other(n):
    s = importlib.util.spec_from_file_location(n, os.path.join(os.path.dirname(os.path.abspath(__file__)), n + ".py"))
    m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
HT=other("seedT").H; HE=other("seedE").H; HC=other("seedC").H; _f=other("seedF"); HF=_f.H; FF=_f.F
HU='''
import numpy as np, sys, warnings
warnings.simplefilter("ignore")
from fpfind.lib import utils as ut
def done(ok, x=None):
    print(x)
    sys.exit(0 if ok else 1)
'''
SEARCH='''
import importlib
fp = importlib.import_module("fpfind.fpfind")
rng = np.random.default_rng(5)
def search(d, slots=600, N=64, r0=8, rt=1, w=32, sep=16):
    dur = N * r0 * w
    S = sep * dur
    ref = np.concatenate([start + 400 + r0 * np.sort(rng.choice(dur // r0 - 100, slots, replace=False)) for start in (0, S)] + [[S + 3 * dur]]).astype(float)
    return fp.fpfind(ref, ref + d, w, N, float(r0), float(rt), 3.0, float(S), [0.0])
'''
BUGS=[
dict(id="u05-strided-groups", property="U05",
 edits=[(UT,"self.background[:length].reshape(-1, len(self.signal)), axis=1","self.background[:length].reshape(len(self.signal), -1), axis=0")],
 demo=HU+'''
s = ut.PeakStatistics(np.array([50., 60.]), np.array([1., 3., 7., 2., 9., 4.]))
m = np.std([4., 9., 13.])
done(abs(s.significance2 - round(s.total / m, 3)) < 1e-9, s.significance2)
''', needs="signal of several bins and a background of more groups than that", breaks="groups take bins that are not next to each other"),
dict(id="u05-total-background", property="U05",
 edits=[(UT,"return sum(self.signal) - len(self.signal) * self.mean","return sum(self.signal) - sum(self.background)")],
 demo=HU+'''
s = ut.PeakStatistics(np.array([50., 60.]), np.array([1., 3., 7., 2., 9., 4.]))
done(abs(s.total - (110 - 2 * 26 / 6)) < 1e-9, s.total)
''', needs="a background of another length than the signal", breaks="the background is not scaled to the signal's length"),
dict(id="u06-first-of-any", property="U06",
 edits=[(UT,"first_timestamp = max(alice[0], bob[0])","first_timestamp = min(alice[0], bob[0])")],
 demo=HU+'''
a = np.array([1., 3., 10., 11., 14.]); b = np.array([10., 12., 15., 30.])
h, x = ut.histogram_fft(a, b, 8)
done(abs(h.sum() - 3 * 3) < 1e-6, h)
''', needs="series starting at different times", breaks="events before the first common time are counted, later ones are not"),
dict(id="u06-axis-end", property="U06",
 edits=[(UT,"bins = np.arange(num_bins) * resolution","bins = np.linspace(0, num_bins * resolution, num_bins)")],
 demo=HU+'''
a = np.array([0., 3., 10., 11.]); 
h, x = ut.histogram_fft(a, a + 3, 8)
done(list(x) == list(range(8)), x)
''', needs="any histogram", breaks="delays on the axis are stretched"),
dict(id="u06-counts", property="U06",
 edits=[(UT,"return result, bins, alen, blen, get_statistics(result, resolution, center, window)","return result, bins, alen, alen, get_statistics(result, resolution, center, window)")],
 demo=HU+'''
a = np.array([0., 3., 5., 7., 11.]); b = np.array([0., 3., 20.])
r = ut.histogram_fft(a, b, 8, statistics=True)
done(r[2:4] == (4, 2), r[2:4])
''', needs="a different number of events in the two windows", breaks="count of the second series is that of the first"),
dict(id="f07-no-floor", property="F07",
 edits=[(FP,"threshold_dt = buffer*max(abs(dt), 1)","threshold_dt = buffer*abs(dt)")],
 demo=HU+SEARCH+'''
got = [search(d) for d in (5.25, -13.0, 100.5)]
done([int(g[0]) for g in got] == [5, -13, 100], got)
''', needs="a delay within the first coarse bin, so that the first delay is zero", breaks="every refinement is discarded"),
dict(id="f07-positive-refinement", property="F07",
 edits=[(FP,"dt1 = get_timing_delay_fft(ys, xs)[0]  # get smaller candidate","dt1 = max(get_timing_delay_fft(ys, xs))  # get smaller candidate")],
 demo=HU+SEARCH+'''
got = [search(d) for d in (5.25, -13.0, 100.5)]
done([int(g[0]) for g in got] == [5, -13, 100], got)
''', needs="a target earlier than the reference", breaks="negative delays are taken modulo the range"),
dict(id="f01-refined-candidate", property="F01",
 edits=[(FP,"_dt1 = get_timing_delay_fft(_ys, xs)[0]","_dt1 = get_timing_delay_fft(_ys, xs)[0]\n        if curr_iteration > 1 and abs(_dt1) > abs(dt1): _dt1 = min(get_timing_delay_fft(_ys, xs), key=lambda x: abs(x - dt1))")],
 demo=HU+'''
import importlib
fp = importlib.import_module("fpfind.fpfind")
fp.generate_fft = lambda a, n, r: None
ys = np.array([9.] + [1., 2.] * 7 + [1.])
fp.get_xcorr = lambda a, b: ys
class S: significance = 9
fp.get_statistics = lambda *a, **k: S
seq = [(10., -54.), (12., -52.), (-5., 11.), (6., -10.)]
fp.get_timing_delay_fft = lambda *a, **k: seq.pop(0)
e = np.linspace(0, 3e6, 4000)
dt, df = fp.time_freq(e, e.copy(), 1000, 16, 4.0, 1.0, 3.0, 640000.0)
done(abs((1 + df) - (1 + 2 / 640000.0) * (1 + 11 / 640000.0)) < 1e-12, (dt, df))
''', needs="a refined late delay of the other sign, larger than the early one and nearly half the range apart", breaks="the late delay is unwrapped around the early one"),
]
