PT="lib/parse_timestamps.py"; PE="lib/parse_epochs.py"; UT="lib/utils.py"; FP="fpfind.py"; PL="fpplot.py"; LG="lib/logging.py"; GE="lib/generate_freqcd_testcase.py"; F="freqcd.c"
import importlib.util, os
def other(n):
    s = importlib.util.spec_from_file_location(n, os.path.join(os.path.dirname(os.path.abspath(__file__)), n + ".py"))
    m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
HT=other("seedT").H; HE=other("seedE").H; HC=other("seedC").H; _f=other("seedF"); HF=_f.H; FF=_f.F
FIFO='''
build()
fq = d + "/fq"
os.mkfifo(fq)
w = os.open(fq, os.O_RDWR)
S = 1 << 34
def run(*args):
    return subprocess.Popen([X, "-F", fq, *args], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
def feed(i):
    p.stdin.write(ev((1 << 50) + i * S)); p.stdin.flush(); time.sleep(0.3)
def say(s):
    os.write(w, s); time.sleep(0.3)
'''
BUGS=[
dict(id="c01-no-carry", property="C01",
 edits=[(F,"eventptr->high = ts >> 22;","eventptr->high = high + (int)((ll)(tscorr + tsoverflowcorr) >> 22);")],
 demo=HC+'''
build()
ts = [1 << 40, (1 << 40) + (1 << 34) + (1 << 22) - 100]
o = [a[0] for a in unev(staged(["-f", "1000"], [b"".join(ev(t) for t in ts)])[0])]
done(abs(o[1] - ts[1] - 1000) < 3, o)
''', needs="a correction that carries from the low into the high word", breaks="the carry into the high word is lost"),
dict(id="c01-wide-shift", property="C01",
 edits=[(F,"const int FCORR_TBITS1 = -FCORR_AMAXBITS - 1;","const int FCORR_TBITS1 = -FCORR_AMAXBITS - 5;"),
        (F,"const int FCORR_TBITS2 = (FCORR_AMAXBITS - FCORR_ARESBITS) + 1;","const int FCORR_TBITS2 = (FCORR_AMAXBITS - FCORR_ARESBITS) + 5;")],
 demo=HC+'''
build()
ts = [5, 5 + (1 << 53)]
f = 2000000
o = [a[0] for a in unev(staged(["-f", str(f)], [b"".join(ev(t) for t in ts)])[0])]
done(abs(o[1] - o[0] - (ts[1] - ts[0]) * (1 + f / 2**34)) < 3e9, o)
''', needs="a gap of more than half the counter range at a large offset", breaks="the product overflows 64 bits"),
dict(id="c02-legacy-detector", property="C02",
 edits=[(F,"eventptr->low = (ts << 10) | (low & 0x3ff);","eventptr->low = (ts << 10) | (eventptr->low & 0x3ff);")],
 demo=HC+'''
build()
s = b"".join(ev((1 << 45) + 3 * i, 5 + i, True) for i in range(4))
o = unev(staged(["-x", "-f", "1000"], [s])[0], True)
done([a[1] for a in o] == [5, 6, 7, 8], o)
''', needs="legacy word order", breaks="the detector bits are taken from the wrong word"),
dict(id="c03-partial-next", property="C03",
 edits=[(F,"inbytespartial = inbytesread % sizeof(struct rawevent);","inbytespartial = inbytesread_next % (int)sizeof(struct rawevent);")],
 demo=HC+'''
build()
s = b"".join(ev((1 << 45) + 3 * i, 5 + i) for i in range(4))
o = staged([], [s[:3], s[3:6], s[6:20], s[20:]])[0]
done(o == s, unev(o))
''', needs="an event split over three reads", breaks="the bytes left over are miscounted"),
dict(id="c04-decimal-stream", property="C04",
 edits=[(F,"                    fcorr_tmp = readint(&freqbuffer[next_num_idx]);","                    fcorr_tmp = readint(&freqbuffer[next_num_idx]);\n                    if (isdecimal && abs(fcorr_tmp) < FCORR_MAX) fcorr_tmp = fcorr_tmp * FCORR_DTOB;")],
 demo=HC+FIFO+'''
p = run("-d", "-f", "0")
time.sleep(0.3)
feed(0); say(b"1000\\n"); feed(1); feed(2)
out, err = p.communicate(timeout=30)
o = [a[0] for a in unev(out)]
done([b - a - S for a, b in zip(o, o[1:])] == [1000, 1000], o)
''', needs="decimal mode together with a frequency stream", breaks="values of the stream are converted although their unit is 2^-34"),
dict(id="c04-first-line-only", property="C04",
 edits=[(F,"                    next_num_idx = i+1;  // continue reading","                    next_num_idx = i+1;  // continue reading\n                    if (freqbytespartial && next_num_idx == freqbytespartial) break;")],
 demo=HC+'''
build()
done(True)
''', needs="x", breaks="x"),
dict(id="c05-base-zero", property="C05",
 edits=[(F,"    value = strtol(buff, &end, 10);","    value = strtol(buff, &end, 0);")],
 demo=HC+'''
build()
s = ev(1 << 40) + ev((1 << 40) + (1 << 34))
r = staged(["-f", "0100"], [s])
done(r[2] == 0 and unev(r[0])[1][0] == (1 << 40) + (1 << 34) + 100, unev(r[0]))
''', needs="an offset with a leading zero", breaks="the offset is read as octal"),
dict(id="c07-signed-high", property="C07",
 edits=[(F,"                tsref = ((ull)high << 22) | (low >> 10);","                tsref = ((ull)(int)high << 22) | (low >> 10);"),
        (F,"                tsmeas = ((ull)high << 22) | (low >> 10);","                tsmeas = ((ll)(int)high << 22) | (low >> 10);"),
        (F,"                eventptr->high = ts >> 22;","                eventptr->high = (ts >> 22);")],
 demo=HC+'''
build()
done(True)
''', needs="x", breaks="x"),
dict(id="c08-frequency-buffer", property="C08",
 edits=[(F,"        freqbuffer = (char *)malloc(FREQBUFSIZE);","        freqbuffer = (char *)malloc(FREQBUFSIZE - 2);")],
 demo=HC+FIFO.replace("build()",'build("-fsanitize=address", "-g"); os.environ["ASAN_OPTIONS"] = "detect_leaks=0"')+'''
p = run()
time.sleep(0.5)
say(b"1" * 99); say(b"2\\n"); feed(0)
out, err = p.communicate(timeout=30)
done(p.returncode == 0 and len(out) == 8, err[-300:])
''', needs="a frequency line that fills the buffer", breaks="bytes are written beyond the allocated buffer"),
dict(id="c08-out-entries", property="C08",
 edits=[(F,"#define OUTBUFENTRIES 1024 ","#define OUTBUFENTRIES 1023 ")],
 demo=HC+'''
build("-fsanitize=address", "-g")
os.environ["ASAN_OPTIONS"] = "detect_leaks=0"
s = b"".join(ev(1000 + i, i & 1023) for i in range(1024))
with open(d + "/in", "wb") as f: f.write(s)
p = subprocess.run([X, "-i", d + "/in"], capture_output=True, timeout=60)
done(p.returncode == 0 and p.stdout == s, p.stderr[-300:])
''', needs="a read that fills the input buffer completely", breaks="the last event is written beyond the output buffer"),
dict(id="c09-retry-misaligned", property="C09",
 edits=[(F,"        if (retval != eventnum * sizeof(struct rawevent)) {","        if (retval > 0 && retval < eventnum * sizeof(struct rawevent))  // write the rest\n            retval += write(outhandle, outbuffer + (retval + 7) / 8, eventnum * sizeof(struct rawevent) - retval);\n        if (retval != eventnum * sizeof(struct rawevent)) {")],
 demo=HC+'''
import ctypes
with open(d + "/s.c", "w") as f:
    f.write("""#include <stddef.h>
#include <sys/types.h>
#include <unistd.h>
#include <sys/syscall.h>
ssize_t write(int fd, const void *b, size_t n) {
    static int k;
    if (fd == 1 && n > 8 && !k++) n = 12;
    return syscall(SYS_write, fd, b, n);
}
""")
subprocess.run(["gcc", "-w", "-o", X, "src/fpfind/freqcd.c", "src/fpfind/lib/getopt.c", d + "/s.c"], check=True)
s = b"".join(ev(1000 + i, 7) for i in range(4))
o = staged([], [s])[0]
done(o == s[:len(o)], unev(o))
''', needs="an output that takes only part of an event", breaks="the rest is written from the wrong place"),
dict(id="c10-glued", property="C10",
 edits=[("lib/getopt.c","    if (*place)                     /* no white space */\n      optarg = place;","    if (*place) {                   /* no white space */\n      optarg = place;\n      if (optarg[0] == '=')\n        optarg++;\n      if (nargc > optind + 1 && nargv[optind + 1][0] != '-')\n        ++optind;\n    }")],
 demo=HC+'''
build()
s = ev(1 << 40) + ev((1 << 40) + (1 << 34))
with open(d + "/in", "wb") as f: f.write(s)
os.chdir(d)
r = [subprocess.run([X, *a], stdin=subprocess.DEVNULL, capture_output=True).stdout for a in (["-f", "100", "-i", "in"], ["-f100", "-iin"], ["-iin", "-f100"])]
done(all(x == r[0] and len(x) == 16 for x in r), r)
''', needs="x", breaks="x"),
dict(id="c10-decimal-late", property="C10",
 edits=[(F,"        case 'd':\n            isdecimal = 1;","        case 'd':\n            isdecimal = (fcorr != FCORR_DEFAULT) || optind >= argc;")],
 demo=HC+'''
build()
s = ev(1 << 40) + ev((1 << 40) + (1 << 34))
a = staged(["-d", "-f", "1000"], [s])[0]
b = staged(["-f", "1000", "-d"], [s])[0]
done(a == b and len(a) == 16, (unev(a), unev(b)))
''', needs="-d given before -f", breaks="decimal mode is ignored"),
dict(id="t05-toggle", property="T05",
 edits=[(PT,"""    def _sread_a1():
        high_pos = 1; low_pos = 0
        if legacy: high_pos, low_pos = low_pos, high_pos
        with open(filename, "rb") as f:
            while True:
                buffer = f.read(buffer_size*8)  # 8 bytes per event
                if len(buffer) == 0:
                    break
""","""    def _sread_a1():
        high_pos = 1; low_pos = 0
        with open(filename, "rb") as f:
            while True:
                buffer = f.read(buffer_size*8)  # 8 bytes per event
                if len(buffer) == 0:
                    break

                if legacy: high_pos, low_pos = low_pos, high_pos
""")],
 demo=HT+'''
np.array([[5,(i<<10)|3] for i in range(4)],dtype="<u4").tofile("x")
a=[list(map(int,t)) for t,p in pt.sread_a1("x",legacy=True,resolution=TSRES.PS4,fractional=False,buffer_size=2)[0]]
done(a==[[(5<<22),(5<<22)+1],[(5<<22)+2,(5<<22)+3]], a)
''', needs="a legacy file of more than one batch", breaks="every other batch is read in the other word order"),
dict(id="t06-any-all", property="T06",
 edits=[(PT,"        pmask = (_p != 0)\n        masked = _p[pmask]\n    else:","        pmask = (_p != 0) & ((_p == pattern) | (_p & (_p - 1) == 0))\n        masked = _p[pmask]\n    else:")],
 demo=HT+'''
p=np.array([3,7,1],dtype=np.uint32)
m,q=pt.get_pattern_mask(p,0b0111,True,False)
done(list(q)==[3,7,1], q)
''', needs="an event with two of three selected detectors", breaks="such events are dropped"),
dict(id="t07-last-start", property="T07",
 edits=[(PT,"    if start > t[-1]:\n        return mask","    if start >= t[-1]:\n        return mask")],
 demo=HT+'''
m=pt.get_timing_mask(np.array([1e9,2e9]),2,3)
done(list(m)==[False,True], m)
''', needs="an interval that starts exactly at the last event", breaks="that event is dropped"),
dict(id="t08-filter-resolution", property="T08",
 edits=[(PT,"            mask = get_timing_mask(t, args.tfilter_start, args.tfilter_end, resolution)\n            t = t[mask]\n            p = p[mask]","            mask = get_timing_mask(t, args.tfilter_start, args.tfilter_end, resolution)\n            t = t[mask]\n            p = p[mask[:len(p)] if args.pfilter_pattern is None else slice(len(t))]")],
 demo=HT+'''
np.array([(int(1e9*256*i)<<10)|i for i in (1,3,5)],dtype="<u8").tofile("x")
sys.argv=["p","-A","1","-q","--pfilter-pattern","7","--pfilter-mask","--tfilter-start","2","x","y"]
pt.main()
r=[int(v)&15 for v in np.fromfile("y",dtype="<u8")]
done(r==[3,5], r)
''', needs="pattern and time filter together, with events before the start", breaks="times and patterns of different events are combined"),
dict(id="t09-zero-multi", property="T09",
 edits=[(PT,"        count_mp += count(np.isin(p, (0, 1, 2, 4, 8), invert=True))","        count_mp += count(np.isin(p, (1, 2, 4, 8), invert=True))")],
 demo=HT+'''
import io, contextlib
o=io.StringIO()
with contextlib.redirect_stdout(o):
    pt.print_statistics_stream("x",iter([(np.array([0,256]),np.array([0,3]))]),resolution=TSRES.PS4,display=False)
done("Multi-channel : 1" in o.getvalue(), o.getvalue())
''', needs="events without detector", breaks="events without a detector count as multi-channel"),
dict(id="e01-zero-high", property="E01",
 edits=[(PE,"            if value == 0:\n                break  # termination","            if value >> 32 == 0:\n                break  # termination")],
 demo=HE+'''
e=0xba1e0000
p=pe.write_T1(".", e, [5,9,1<<30],[1,2,4])
try: t,b=pe.read_T1(p,full_epoch=True,resolution=TSRES.PS4,fractional=False); ok=[int(x) for x in t]==[(e<<37)+5,(e<<37)+9,(e<<37)+(1<<30)]
except ValueError as x: ok=False; t=x
done(ok, t)
''', needs="an event in the first 16 us of an epoch that is a multiple of 2^17", breaks="such an event ends the file"),
dict(id="e03-unknown-length", property="E03",
 edits=[(PE,"""                if base != 0:
                    raise ValueError(
                        "File inconsistent with T2 epoch""","""                if base != 0 and len(timestamps) != length:
                    raise ValueError(
                        "File inconsistent with T2 epoch""")],
 demo=HE+'''
wr("1",struct.pack("<iIIiii",0x102,1,1,16,4,0)+pack_bits([(5,16),(3,4),(1,16),(5,4)]))
try: pe.read_T2("1"); done(False,"accepted")
except ValueError: done(True)
''', needs="non-zero terminal bits in a file whose length matches", breaks="the inconsistent file is accepted"),
dict(id="e04-extended-one", property="E04",
 edits=[(PE,"""            # End-of-file check
            if timing == 1:
                base, buffer, size = extract_bits(basebits, buffer, size, f)
                if base != 0:
                    raise ValueError(
                        "File inconsistent with T2 epoch definition: "
                        "Terminal base bits not zero"
                    )
                break

            # Check if timing is actually in extended format, i.e. 32-bits
            if timing == 0:
                logging.debug("Extracting extended timing...")
                timing, buffer, size = \\
                    extract_bits(timeorder_extended, buffer, size, f)
""","""            # Check if timing is actually in extended format, i.e. 32-bits
            if timing == 0:
                logging.debug("Extracting extended timing...")
                timing, buffer, size = \\
                    extract_bits(timeorder_extended, buffer, size, f)

            # End-of-file check
            if timing == 1:
                base, buffer, size = extract_bits(basebits, buffer, size, f)
                if base != 0:
                    raise ValueError(
                        "File inconsistent with T2 epoch definition: "
                        "Terminal base bits not zero"
                    )
                break
""")],
 demo=HE+'''
wr("1",struct.pack("<iIIiii",0x102,1,2,16,4,0)+pack_bits([(0,16),(1,32),(3,4),(7,16),(1,4),(1,16),(0,4)]))
try: t,_=pe.read_T2("1",resolution=TSRES.PS125,fractional=False); ok=[int(v)-(1<<32) for v in t]==[1,8]
except ValueError as x: ok=False; t=x
done(ok,t)
''', needs="a difference of one unit in the extended form", breaks="it is taken for the end of the file"),
dict(id="e07-all-errors", property="E07",
 edits=[(PE,"    if er_coin + gd_coin != 0:","    if gd_coin != 0:")],
 demo=HE+'''
wr("1",struct.pack("<iIIi",0x103,1,4,8)+bytes([0x11]*4))
done(pe.read_T3("1").qber==1.0)
''', needs="a file with erroneous coincidences only", breaks="the error rate is reported as 0.5"),
dict(id="e08-rounded-second", property="E08",
 edits=[(PE,"    total_seconds = int(datetime.timestamp())","    total_seconds = round(datetime.timestamp())")],
 demo=HE+'''
import datetime as dt
class D:
    def timestamp(self): return 1048575.75
done(int(pe.date2epoch(D()),16)==(1048575*8000000000)>>32)
''', needs="a date in the last half second before an epoch boundary", breaks="the next epoch is given"),
dict(id="e09-name-order", property="E09",
 edits=[(UT,"        min_epochint = min(epochints)","        min_epochint = epoch2int(min(map(int2epoch, epochints)))")],
 demo=HE+'''
for x in "ab":
    os.mkdir(x)
    for e in (0xfffffff,0x10000000): wr(f"{x}/{e:x}",b"")
done(ut.get_first_overlapping_epoch("a","b",return_length=True)==("fffffff",2))
''', needs="epochs whose names differ in length", breaks="the first epoch is chosen by name"),
dict(id="u02-partition", property="U02",
 edits=[(UT,"    xs_raw = np.argpartition(hist, -k)[-k:]","    xs_raw = np.argpartition(hist, k)[-k:]")],
 demo=HE+'''
rng=np.random.default_rng(1)
ok=True
for i in range(300):
    h=rng.permutation(64).astype(float)
    r=ut.get_top_k_delays_fft(h,np.arange(64),5)
    ok=ok and sorted(x[0] for x in r)==[59,60,61,62,63]
done(ok)
''', needs="a histogram long enough for partial sorting to matter", breaks="not the largest bins are returned"),
dict(id="u04-signed-filter", property="U04",
 edits=[(UT,"    if filter is not None:\n        fft = fft * filter\n    result = scipy.fft.irfft(fft)","    fft[0] = fft[0].real - fft[0].real % 2  # remove offset\n    if filter is not None:\n        fft = fft * filter\n    result = scipy.fft.irfft(fft)")],
 demo=HE+'''
a=ut.generate_fft(np.array([1.,5,6]),8,1); b=ut.generate_fft(np.array([2.,6,7]),8,1)
c=ut.get_xcorr(a,b)
done(abs(c[1]-3)<1e-9, c)
''', needs="x", breaks="x"),
dict(id="f04-beyond-stop", property="F04",
 edits=[(FP,"        df0s = np.arange(1, int(stop // step + 1) * 2) // 2  # flip-flop","        df0s = np.arange(1, int(np.ceil(stop / step) + 1) * 2) // 2  # flip-flop")],
 demo=FF+'''
r=fp.generate_precompensations(0,10,4)
done(list(r)==[0,4,-4,8,-8], r)
''', needs="a stop value that is no multiple of the step", breaks="values beyond the stop value are tried"),
dict(id="f06-wrap-epochs", property="F06",
 edits=[(FP,"    minimum_duration = (args.separation + 1) * Ta","    minimum_duration = Ts + args.initial_res * num_bins")],
 demo=FF+'''
n = []
fp.get_first_overlapping_epoch = lambda *a, **k: ("5", 100)
fp.get_timestamp = lambda *a, **k: n.append(a[4] if len(a) > 4 else k["num_of_epochs"]) or np.array([1., 2.])
fp.fpfind = lambda *a, **k: (0.0, 0.0)
main(["-d", "x", "-D", "y", "-q", "26", "-R", "16", "-k", "3"])
need = -(-(7 * 3 * 16 << 26) // (1 << 29))
done(all(v > need for v in n) and n, (n, need))
''', needs="more than one wrap", breaks="too few epochs are read for the late window"),
dict(id="f06-legacy-one", property="F06",
 edits=[(FP,"        bob = read_a1(args.target, legacy=args.legacy)[0]","        bob = read_a1(args.target)[0]")],
 demo=FF+'''
seen = []
fp.read_a1 = lambda *a, **k: seen.append(k.get("legacy", a[1] if len(a) > 1 else False)) or (np.array([1., 2.]), 0)
fp.fpfind = lambda *a, **k: (0.0, 0.0)
main(["-t", "x", "-T", "y", "-X"])
done(seen == [True, True], seen)
''', needs="legacy event files", breaks="the target file is read in the wrong word order"),
dict(id="f02-merge-fold", property="F02",
 edits=[(FP,"                ys = np.sum(ys.reshape(-1, 2), axis = 1)","                ys = np.sum(ys.reshape(2, -1), axis = 0)")],
 demo=FF+'''
class S:
    def __init__(self, v): self.significance = v
seen = []
fp.generate_fft = lambda a, n, r: a
fp.get_xcorr = lambda a, b: np.arange(8.0)
fp.get_timing_delay_fft = lambda y, x: seen.append(list(y)) or (0.0, 0)
k = iter([1] + [50] * 9)
fp.get_statistics = lambda *a, **kw: S(next(k))
a = np.arange(0.0, 4000.0)
try: fp.time_freq(a, a, 1, 8, 16, 32, 6, 6 * 16 * 8)
except Exception as e: pass
done(seen[1] == [1.0, 5.0, 9.0, 13.0], seen[1])
''', needs="a first peak below the threshold", breaks="distant bins are merged"),
dict(id="f03-last-found", property="F03",
 edits=[(FP,"        dt1, df1 = time_freq(\n                alice, (bob - dt)/f,","        dt1, df1 = time_freq(\n                alice, (bob - dt)/f if df0 > 0 else bob*(1 - df0),")] ,
 demo=FF+'''
seen = []
def tf(a, b, *r):
    seen.append(b[-1]); raise ValueError
fp.time_freq = tf
try: fp.fpfind(np.array([0., 1e9]), np.array([0., 1e12]), 1, 4, 4, 4, 6, 96, [1e-4, -1e-4])
except ValueError: pass
done(abs(seen[1] - 1e12 / (1 - 1e-4)) < 1, seen)
''', needs="a negative precompensation", breaks="a negative precompensation is applied in first order only"),
]
BUGS=[b for b in BUGS if b["needs"] != "x"]
