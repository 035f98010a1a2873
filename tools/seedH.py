PT="lib/parse_timestamps.py"; PE="lib/parse_epochs.py"; UT="lib/utils.py"; FP="fpfind.py"; PL="fpplot.py"; LG="lib/logging.py"; GE="lib/generate_freqcd_testcase.py"; F="freqcd.c"
import importlib.util, os
def other(n):
    s = importlib.util.spec_from_file_location(n, os.path.join(os.path.dirname(os.path.abspath(__file__)), n + ".py"))
    m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
HT=other("seedT").H; HE=other("seedE").H; HC=other("seedC").H; _f=other("seedF"); HF=_f.H; FF=_f.F
BUGS=[
dict(id="t02-legacy-top-bit", property="T02",
 edits=[(PT,"""    with open(filename, "wb") as f:
        for line in events:
            if legacy:
                line = int(line); line = ((line & 0xFFFFFFFF) << 32) + (line >> 32)
            f.write""","""    with open(filename, "wb") as f:
        for line in events:
            if legacy:
                line = int(line); line = ((line & 0x7FFFFFFF) << 32) + (line >> 32)
            f.write""")],
 demo=HT+'''
pt.write_a1("x", np.array([1<<21, 5], dtype=np.uint64), np.array([1,2]), legacy=True, resolution=TSRES.PS4)
w=np.fromfile("x",dtype="<u8")
done([int(v) for v in w]==[((1<<31)+1)<<32, ((5<<10)+2)<<32], w)
''', needs="an event whose low word has its top bit set, written in legacy word order", breaks="bit 21 of the timestamp is lost when writing legacy files"),
dict(id="t03-half-up", property="T03",
 edits=[(PT,"data = (np.array(t, dtype=np_float) * (TSRES.PS4.value//resolution.value)).astype(np.uint64) << 10","data = (np.array(t, dtype=np.float64) * (TSRES.PS4.value//resolution.value)).astype(np.uint64) << 10")],
 demo=HT+'''
T=(1<<54)-1
np.array([(T<<10)|3],dtype="<u8").tofile("x")
t,p=pt.read_a1("x")
pt.write_a2("y",t,p)
with open("y") as f: s=f.read()
done(s==f"{(T<<10)|3:016x}\\n", s)
''', needs="an odd timestamp of 54 significant bits (after ten hours)", breaks="events are written from 53-bit floats and lose their last bit"),
dict(id="e05-object-overflow", property="E05",
 edits=[(PE,"        epoch_msb = int(epoch_msb) << (49+bitdiff)","        epoch_msb = int(np.int64(epoch_msb) << np.int64(49+bitdiff))")],
 demo=HE+'''
e=0xba1f36c0
wr("ba1f36c0",struct.pack("<iIIiii",0x102,e,1,16,4,0)+pack_bits([(5,16),(3,4),(1,16),(0,4)]))
t,_=pe.read_T2("ba1f36c0",full_epoch=True,resolution=TSRES.PS4,fractional=False)
done(int(t[0])==((e<<32)+5)*32, t)
''', needs="integer 4 ps output with the full epoch, epoch above 2^26", breaks="the upper epoch bits overflow"),
dict(id="u03-int32-bins", property="U03",
 edits=[(UT,"        np.int64((arr // time_res) % num_bins), minlength=num_bins","        np.asarray(arr // time_res).astype(np.int32) % num_bins, minlength=num_bins")],
 demo=HE+'''
f=ut.generate_fft(np.array([3.0e9+5]),8,1)
import scipy.fft
h=np.rint(scipy.fft.irfft(f))
done(list(h)==[0]*int((3*10**9+5)%8)+[1]+[0]*int(7-(3*10**9+5)%8), h)
''', needs="a series longer than 2^31 bins (2.1 s at 1 ns)", breaks="bins beyond 2^31 overflow and the events land in wrong bins"),
dict(id="u05-half-window", property="U05",
 edits=[(UT,"    num_windowbins_onesided = int(np.ceil(window / 2 / resolution))","    num_windowbins_onesided = int(np.ceil(window / resolution)) // 2")],
 demo=HE+'''
h=np.array([1.,2,3,9,4,2,1,1])
s=ut.get_statistics(h,2.0,window=6.0)
done(list(s.signal)==[2,3,9,4,2], s.signal)
''', needs="a window that is an odd number of bins wide", breaks="the signal region is one bin too narrow on either side"),
dict(id="f01-new-factor", property="F01",
 edits=[(FP,"        dt += f * dt1\n        f  *= (1 + df1)\n        logger","        f  *= (1 + df1)\n        dt += f * dt1\n        logger")],
 demo=FF+'''
class S: significance = 50
delays = iter([90000.0, 90001.0, 0.0, 0.0])
fp.generate_fft = lambda a, n, r: a
fp.get_xcorr = lambda a, b: np.zeros(4)
fp.get_timing_delay_fft = lambda y, x: (next(delays), 0)
fp.get_statistics = lambda *a, **k: S
a = np.array([0., 100000., 10**7]); b = a + 90000
dt, df = fp.time_freq(a, b, 1, 4096, 4, 4, 6, 6 * 4 * 4096)
done(dt == 90000.0, dt)
''', needs="a large delay together with a frequency offset", breaks="time correction scaled with the new instead of the old frequency factor"),
dict(id="f02-one-sided-limit", property="F02",
 edits=[(FP,"        if abs(f - 1) >= MAX_FCORR:","        if f - 1 >= MAX_FCORR or f <= 1 / (1 + 2 * MAX_FCORR):")],
 demo=FF+'''
class S: significance = 50
D = 4 * 4096
delays = iter([0.0, -6 * D * 1.5 * 2**-13])
fp.generate_fft = lambda a, n, r: a
fp.get_xcorr = lambda a, b: np.zeros(4)
fp.get_timing_delay_fft = lambda y, x: (next(delays), 0)
fp.get_statistics = lambda *a, **k: S
a = np.array([0., 100000., 10**7])
try:
    r = fp.time_freq(a, a, 1, 4096, 4, 4, 6, 6 * D)
    done(False, r)
except ValueError: done(True)
''', needs="a target clock that is slow by between 122 and 244 ppm", breaks="frequency offsets below -2^-13 are returned"),
dict(id="f03-kept-offset", property="F03",
 edits=[(FP,"""        dt += f * dt1
        f *= (1 + df1)
        logger.debug("  Applied another""","""        dt += dt1
        f *= (1 + df1)
        logger.debug("  Applied another""")],
 demo=FF+'''
fp.time_freq = lambda *a, **k: (10.0**7, 1e-6)
dt, df = fp.fpfind(np.array([1.,2.]), np.array([1.,2.]), 1, 4, 1, 1, 6, 1, [1e-4])
done(abs(dt - 10.0**7 * (1 + 1e-4)) < 1, dt)
''', needs="a precompensation and a large delay", breaks="the time offset is not scaled back by the precompensation"),
dict(id="f05-linear-inverse", property="F05",
 edits=[(FP,"        df = 1 / (1 + df) - 1  # (1 + f_alice) * (1 + f_bob) = 1","        df = -df / (1 + abs(df))  # (1 + f_alice) * (1 + f_bob) = 1")],
 demo=FF+'''
fp.read_a1 = lambda *a, **k: (np.array([1.0, 9.0]), None)
fp.fpfind = lambda *a, **k: (0.0, -1e-4)
s = main(["-t", "a", "-T", "b", "-V", "1"])
done(abs(float(s.split("\\t")[0]) - (1 / (1 - 1e-4) - 1)) < 1e-12, s)
''', needs="swapped roles and a negative frequency offset", breaks="the inverted frequency offset is off by 2 df^2"),
dict(id="x01-target-duration", property="X01",
 edits=[(PL,"        bob = slice_timestamps(bob, 0, args.duration*1e9)","        bob = slice_timestamps(bob, bob[0], args.duration*1e9)")],
 demo=HF+'''
def mod(n, **k):
    m = types.ModuleType(n); m.__dict__.update(k); sys.modules[n] = m; return m
import argparse
class P(argparse.ArgumentParser):
    def add_argument_group(self, *a, **k):
        g = super().add_argument_group(*a, **k); add = g.add_argument
        g.add_argument = lambda *x, is_config_file_arg=None, is_write_out_config_file_arg=None, **y: add(*x, **y)
        return g
seen = []
no = lambda *a, **k: None
plt = mod("matplotlib.pyplot", plot=no, xlabel=no, ylabel=no, savefig=no, show=no); mod("matplotlib", pyplot=plt)
sc = mod("boiler.scriptutil", generate_default_parser=lambda *a, **k: P(add_help=False), parse_args_or_help=lambda p, *a, **k: p.parse_args())
bl = mod("boiler.logging", set_default_handlers=no, set_logging_level=no); mod("boiler", scriptutil=sc, logging=bl)
g = mod("S15lib.g2lib.g2lib", histogram=lambda a, b, duration=None, *x, **k: seen.append((a, b)) or ([], []))
g2 = mod("S15lib.g2lib", g2lib=g); mod("S15lib", g2lib=g2)
import importlib; pl = importlib.import_module("fpfind.fpplot")
pl.read_a1 = lambda f, *a, **k: (np.array([5e9, 6e9, 9e9]) if f == "a" else np.array([4e9, 6e9, 9e9]), None)
sys.argv = ["fpplot", "-t", "a", "-T", "b", "--duration", "2"]
pl.main()
done(list(seen[0][1]) == [1e9], seen)
''', needs="a limited duration and a target whose first kept event is after the first one of the reference", breaks="the target series is shifted by its own first event"),
dict(id="l01-tuple-details", property="L01",
 edits=[(LG,"            if isinstance(details, (list, tuple)) and len(details) > 0:","            if hasattr(details, \"copy\") and len(details) > 0:")],
 demo=HF+'''
import logging
from fpfind.lib import logging as lg
f = lg.LoggingOverrideFormatter(fmt="{levelname}\\t| {message}", style="{", human_readable=True)
r = logging.LogRecord("n", 20, "p", 1, "hello", (), None); r.details = ("a", "b")
done(f.format(r).count("\\n") == 2, f.format(r))
''', needs="details given as a tuple in human readable mode", breaks="details are dropped"),
dict(id="g01-float-print", property="G01",
 edits=[(GE,"print(int(t * ts_parser.TSRES.PS4.value))","print(int(float(t) * ts_parser.TSRES.PS4.value))")],
 demo=HF+'''
T = (1 << 54) - 1
with open("x", "wb") as f: f.write(struct.pack("<Q", T << 10 | 1))
from fpfind.lib import generate_freqcd_testcase as g
import contextlib
o = io.StringIO(); sys.argv = ["g", "x"]
with contextlib.redirect_stdout(o): g.main()
done(o.getvalue() == f"{T}\\n", o.getvalue())
''', needs="a timestamp with 54 significant bits", breaks="the printed timestamp is rounded to 53 bits"),
dict(id="u01-relative-last", property="U01",
 edits=[(UT,"    start_time = max([ts[0] for ts in T]) + skip*1e9  # units of ns","    start_time = max([ts[0] for ts in T][:2]) + skip*1e9  # units of ns")],
 demo=HE+'''
a,b,c=(np.array(x,dtype=float) for x in ([1,5,9],[2,6,9],[4,7,9]))
r=ut.normalize_timestamps(a,b,c)
done([list(x) for x in r]==[[1,5],[2,5],[0,3,5]], r)
''', needs="three series, the last of which starts latest", breaks="common start ignores the third series"),
dict(id="e10-epoch-roll", property="E10",
 edits=[(UT,"    first_epochint = epoch2int(first_epoch) + skip_epoch","    first_epochint = (epoch2int(first_epoch) & ~0xFF) + (epoch2int(first_epoch) + skip_epoch & 0xFF)")],
 demo=HE+'''
for e in (0xFE,0xFF,0x100,0x101): pe.write_T1(".",e,[e],[1])
try: t=ut.get_timestamp(".","T1","fe",2,1); ok=abs(float(t[0])*256-((0x100<<37)+0x100))<1
except Exception as x: ok=False; t=x
done(ok,t)
''', needs="skipping across a multiple of 256 epochs", breaks="reads the wrong epochs"),
]
