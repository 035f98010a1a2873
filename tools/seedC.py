F="freqcd.c"
H='''import os, sys, tempfile, struct, subprocess, shutil, time, fcntl
d = tempfile.mkdtemp()
X = d + "/freqcd"
FLAGS = []
def build(*flags):
    subprocess.run(["gcc", "-w", *flags, "-o", X, "src/fpfind/freqcd.c", "src/fpfind/lib/getopt.c"], check=True)
def done(ok, msg=""):
    shutil.rmtree(d, ignore_errors=True)
    print("ok" if ok else "BROKEN " + str(msg)); sys.exit(0 if ok else 1)
def ev(t, b=0, legacy=False):
    w = struct.pack("<Q", ((t << 10) | b) & (2**64 - 1))
    return w[4:] + w[:4] if legacy else w
def unev(s, legacy=False):
    r = []
    for i in range(0, len(s) - 7, 8):
        e = s[i:i+8]
        w = struct.unpack("<Q", e[4:] + e[:4] if legacy else e)[0]
        r.append((w >> 10, w & 1023))
    return r
def staged(args, chunks, wait=0.25):
    """Feeds the chunks one after another."""
    p = subprocess.Popen([X, *args], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    for c in chunks:
        if callable(c): c()
        else:
            p.stdin.write(c); p.stdin.flush()
        time.sleep(wait)
    out, err = p.communicate(timeout=60)
    return out, err, p.returncode
'''
BUGS=[
dict(id="c01-resolution", property="C01",
 edits=[(F,"const int FCORR_TBITS1 = -FCORR_AMAXBITS - 1;","const int FCORR_TBITS1 = -FCORR_AMAXBITS + 3;"),
        (F,"const int FCORR_TBITS2 = (FCORR_AMAXBITS - FCORR_ARESBITS) + 1;","const int FCORR_TBITS2 = (FCORR_AMAXBITS - FCORR_ARESBITS) - 3;")],
 demo=H+'''
build()
f = 2000000
ts = [1 << 40, (1 << 40) + 65535, (1 << 40) + 200000]
out, err, rc = staged(["-f", str(f)], [b"".join(ev(t) for t in ts)])
bad = [(a[0] - t) - ((t - ts[0]) * f / 2**34) for a, t in zip(unev(out), ts)]
done(len(bad) == 3 and all(abs(x) <= 1.5 for x in bad), bad)
''', needs="a large offset and elapsed times just below a multiple of 2^16 units", breaks="elapsed time is truncated to 2^16 units, so the correction is wrong by several units"),
dict(id="c01-narrow-correction", property="C01",
 edits=[(F,"    ll tscorr;              // timestamp correction","    int tscorr;             // timestamp correction")],
 demo=H+'''
build()
f = 2000000
ts = [1 << 40, (1 << 40) + (1 << 45)]
out, err, rc = staged(["-f", str(f)], [b"".join(ev(t) for t in ts)])
o = unev(out)
done(abs((o[1][0] - ts[1]) - (1 << 45) * f / 2**34) <= 1.5, o)
''', needs="more than 2^31 units of correction within one read (over a minute between events of a read at the largest offset)", breaks="correction truncated to 32 bits"),
dict(id="c02-legacy-bits", property="C02",
 edits=[(F,"(ts << 10) | (low & 0x3ff);","(ts << 10) | (low & (islegacy ? 0x1ff : 0x3ff));")],
 demo=H+'''
build()
evs = [(1000 + i, i * 93 & 1023) for i in range(20)]
out, err, rc = staged(["-x"], [b"".join(ev(t, b, True) for t, b in evs)])
done(unev(out, True) == evs, unev(out, True))
''', needs="legacy word order and an event with the highest of the ten low bits set", breaks="bit 9 of the detector field is cleared"),
dict(id="c03-split-count", property="C03",
 edits=[(F,"eventnum = inbytesread / sizeof(struct rawevent);","eventnum = inbytesread_next / sizeof(struct rawevent)\n                     + (inbytespartial + inbytesread_next % sizeof(struct rawevent) > sizeof(struct rawevent));")],
 demo=H+'''
build()
evs = [(1000 + i, i) for i in range(6)]
s = b"".join(ev(*e) for e in evs)
out, err, rc = staged([], [s[:13], s[13:27], s[27:30], s[30:]])
out2, err, rc = staged([], [s[:7], s[7:24], s[24:]])
out3, err, rc = staged([], [s[:15], s[15:40], s[40:]])
done(unev(out) == evs and unev(out2) == evs and unev(out3) == evs, (unev(out), unev(out2), unev(out3)))
''', needs="a read that ends exactly at the end of an event it received only in part", breaks="an event completed by the rest of a split read is lost"),
dict(id="c04-reset-on-close", property="C04",
 edits=[(F,"""            if (freqbytesread_next == 0) {
                freqhandle = 0;""","""            if (freqbytesread_next == 0) {
                freqhandle = 0;
                if (freqbytespartial) fcorr = FCORR_DEFAULT;  // truncated value""")],
 demo=H+'''
build()
fq = d + "/fq"
os.mkfifo(fq)
w = []
S = 1 << 34
def opn():
    w.append(os.open(fq, os.O_RDWR))
opn()
p = subprocess.Popen([X, "-F", fq], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
time.sleep(0.3)
def feed(i):
    p.stdin.write(ev((1 << 50) + i * S)); p.stdin.flush(); time.sleep(0.3)
feed(0)
os.write(w[0], b"1000\\n12"); time.sleep(0.3)
feed(1)
os.close(w[0]); time.sleep(0.3)
feed(2); feed(3)
out, err = p.communicate(timeout=30)
o = [a[0] for a in unev(out)]
done([b - a - S for a, b in zip(o, o[1:])] == [1000, 1000, 1000], o)
''', needs="the frequency stream is closed in the middle of a line, with events after that", breaks="the offset in force falls back to zero instead of staying"),
dict(id="c05-limit", property="C05",
 edits=[(F,"    if (abs(fcorr) >= FCORR_MAX) return -emsg(5);","    if (abs(fcorr) > FCORR_MAX) return -emsg(5);")],
 demo=H+'''
build()
r = [staged(["-f", str(f)], [ev(5)])[2] for f in (2097151, -2097151, 2097152, -2097152)]
done(r[0] == 0 and r[1] == 0 and r[2] != 0 and r[3] != 0, r)
''', needs="an offset of exactly 2^21", breaks="an offset outside the documented range is accepted"),
dict(id="c06-accumulated-width", property="C06",
 edits=[(F,"    ll tsoverflowcorr = 0;  // timestamp overflow corrections","    int tsoverflowcorr = 0; // timestamp overflow corrections")],
 demo=H+'''
build()
ts = [(1 << 40) + (i << 43) for i in range(8)]
out, err, rc = staged(["-f", "2000000"], [ev(t) for t in ts])
o = [a[0] for a in unev(out)]
done(len(o) == 8 and o == sorted(o) and all(abs((b - a) - (1 << 43) * (1 + 2000000 / 2**34)) < 3 for a, b in zip(o, o[1:])), o)
''', needs="several reads whose corrections add up to more than 2^31 units", breaks="the accumulated correction wraps, so output time jumps back"),
dict(id="c07-clamp-negative", property="C07",
 edits=[(F,"                ts = tsmeas + tscorr + tsoverflowcorr;","                ts = tsmeas + tscorr + tsoverflowcorr;\\n                if ((ll)ts < 0) ts = 0;  // before start of counter")],
 demo=H+'''
build()
f = -2000000
top = 1 << 54
ts = [top - (1 << 44), top + 1000, top + 5000000]
out, err, rc = staged(["-f", str(f)], [b"".join(ev(t % top, 7) for t in ts)])
o = [(a[0] - t) % top for a, t in zip(unev(out), ts)]
bad = [((x + top // 2) % top - top // 2) - (t - ts[0]) * f / 2**34 for x, t in zip(o, ts)]
done(len(bad) == 3 and all(abs(x) < 2 for x in bad), bad)
''', needs="a negative offset and events just after the roll-over of the counter", breaks="corrected times before the roll-over are clamped to zero instead of wrapping"),
dict(id="c08-read-size", property="C08",
 edits=[(F,"read(inhandle, inbufferbytes_next, INBUFSIZE - inbytespartial);","read(inhandle, inbufferbytes_next, INBUFSIZE - (inbytespartial & 3));")],
 demo=H+'''
build("-fsanitize=address", "-g")
os.environ["ASAN_OPTIONS"] = "detect_leaks=0"
s = b"".join(ev(1000 + i, i & 1023) for i in range(3000))
p = subprocess.Popen([X, "-f", "3"], stdin=subprocess.PIPE, stdout=open(d + "/o", "wb"), stderr=subprocess.PIPE)
p.stdin.write(s[:5]); p.stdin.flush(); time.sleep(0.5)
try:
    p.stdin.write(s[5:]); p.stdin.close()
except BrokenPipeError:
    pass
rc = p.wait(timeout=60)
done(rc == 0 and os.path.getsize(d + "/o") == len(s), (rc, os.path.getsize(d + "/o")))
''', needs="a partial event of four or more bytes followed by a read that fills the buffer", breaks="the read may write past the end of the input buffer"),
dict(id="c09-short-write", property="C09",
 edits=[(F,"        if (retval != eventnum * sizeof(struct rawevent)) {","        if (retval == -1 && eventnum > 0) {")],
 demo=H+'''
build()
r, w = os.pipe()
fcntl.fcntl(w, 1031, 4096)
fcntl.fcntl(w, fcntl.F_SETFL, fcntl.fcntl(w, fcntl.F_GETFL) | os.O_NONBLOCK)
s = b"".join(ev(1000 + i, i & 1023) for i in range(2000))
open(d + "/in", "wb").close()
p = subprocess.Popen([X], stdin=subprocess.PIPE, stdout=w, stderr=subprocess.DEVNULL)
os.close(w)
p.stdin.write(s[:6400]); p.stdin.flush(); time.sleep(0.5)
got = os.read(r, 65536)
try:
    p.stdin.write(s[6400:]); p.stdin.flush(); time.sleep(0.5); p.stdin.close()
except BrokenPipeError:
    pass
while True:
    b = os.read(r, 65536)
    if not b: break
    got += b
p.wait(timeout=30)
done(s.startswith(got) and len(got) == 4096, len(got))
''', needs="an output that takes only part of a write and accepts more later", breaks="events are lost in the middle of the output instead of stopping"),
dict(id="c10-negative-value", property="C10",
 edits=[("lib/getopt.c","    else if (nargc <= ++optind) {   /* no arg */","    else if (nargc <= ++optind ||   /* no arg */\\n             (nargv[optind][0] == '-' && nargv[optind][1])) {")],
 demo=H+'''
build()
s = ev(1 << 40) + ev((1 << 40) + (1 << 34))
a = staged(["-f-5000"], [s])
b = staged(["-f", "-5000"], [s])
done(a[0] == b[0] and a[2] == b[2] and unev(a[0])[1][0] == (1 << 40) + (1 << 34) - 5000, (unev(a[0]), unev(b[0])))
''', needs="a negative offset given as a separate argument", breaks="a value starting with - is taken for a missing argument, so the offset is ignored"),
]
for b in BUGS:
    b["edits"] = [(f, o.replace("\\n", "\n"), n.replace("\\n", "\n")) for f, o, n in b["edits"]]
