PT="lib/parse_timestamps.py"
H='''import os, sys, tempfile, struct, subprocess
import numpy as np
from fpfind import TSRES
from fpfind.lib import parse_timestamps as pt
d = tempfile.mkdtemp(); os.chdir(d)
def wr(n, s):
    with open(n, 'wb') as f: f.write(s if isinstance(s, bytes) else s.encode())
def done(ok, msg=""):
    import shutil; os.chdir("/"); shutil.rmtree(d, ignore_errors=True)
    print("ok" if ok else "BROKEN " + str(msg)); sys.exit(0 if ok else 1)
'''
BUGS=[
dict(id="t01-a2-pattern", property="T01",
 edits=[(PT,"""    t = np.uint64(data >> 10)
    t = _format_timestamps(t, resolution, fractional)
    p = data & 0xF
    return t, p

def sread_a1(""","""    t = np.uint64(data >> 10)
    t = _format_timestamps(t, resolution, fractional)
    p = data & (0xF if len(data) < 5 else 0x1F)
    return t, p

def sread_a1(""")],
 demo=H+'''
ev=[(i<<10)|0x10|(i%16) for i in range(8)]
wr("x","".join(f"{e:016x}\\n" for e in ev))
t,p=pt.read_a2("x")
done(list(p)==[i%16 for i in range(8)], list(p))
''', needs="an a2 file of at least five events with flag bit 4 set", breaks="read_a2 returns a flag bit as part of the detector pattern"),
dict(id="t04-int-floor-125ps", property="T04",
 edits=[(PT,"t = t // (TSRES.PS4.value//resolution.value)","t = np.uint64(np.array(t, dtype=np.float64) / (TSRES.PS4.value/resolution.value))")],
 demo=H+'''
T=(1<<54)-1
np.array([(T<<10)|3],dtype="<u8").tofile("x")
t,p=pt.read_a1("x",resolution=TSRES.NS1,fractional=False)
done(int(t[0])==T//256, int(t[0]))
''', needs="a timestamp above 2^53 units of 4 ps (10 hours) whose low bits are set, read with integer output", breaks="integer conversion goes through a 53-bit float and rounds up"),
dict(id="t05-empty-last-batch", property="T05",
 edits=[(PT,"num_batches = int(((size-1) // (buffer_size*17)) + 1)","num_batches = int((size // (buffer_size*17)) + 1)")],
 demo=H+'''
wr("x","".join(f"{(i<<10):016x}\\n" for i in range(6)))
s,n=pt.sread_a2("x",buffer_size=3)
done(n==len(list(s)), n)
''', needs="a file whose event count is an exact multiple of the batch size", breaks="announced number of batches one too large"),
dict(id="t06-dummy-events", property="T06",
 edits=[(PT,"_p = np.where(p == 0, 16, p)","_p = np.where(p == 0, 8 << (pattern != 15), p)")],
 demo=H+'''
m,p=pt.get_pattern_mask(np.array([0,1,9,0,4]),15,True,True)
done(list(m)==[True,False,False,True,False] and list(p)==[0,0], (list(m),list(p)))
''', needs="masking away all four bits of a stream that holds events without any detector bit", breaks="dummy events are dropped when the mask covers every detector"),
dict(id="t07-closed-end", property="T07",
 edits=[(PT,"j = bisect.bisect_right(t, end)  # binary search","j = bisect.bisect_right(t, end, lo=min(i+1, len(t)))  # binary search")],
 demo=H+'''
t=np.array([2e9,4e9,5e9,8e9])
m=pt.get_timing_mask(t,4.5,4.6)
done(list(m)==[False]*4, list(m))
''', needs="an interval that lies between two consecutive events", breaks="an event after the end of the interval is kept"),
dict(id="t08-legacy-stream", property="T08",
 edits=[(PT,"""            events = _consolidate_events(t, p, resolution)
            for line in events:
                if legacy:
                    line = int(line); line = ((line & 0xFFFFFFFF) << 32) + (line >> 32)
                f.write(struct.pack("=Q", line))

def swrite_a0(""","""            events = _consolidate_events(t, p, resolution, sort=legacy)
            for line in events:
                if legacy:
                    line = int(line); line = ((line & 0xFFFFFFFF) << 32) + (line >> 32)
                f.write(struct.pack("=Q", line))

def swrite_a0(""")],
 demo=H+'''
ts=[5,5,9]; ps=[8,1,2]
pt.swrite_a1("x",iter([(np.array(ts,dtype=np.uint64),np.array(ps))]),legacy=True,resolution=TSRES.PS4,display=False)
t,p=pt.read_a1("x",legacy=True,resolution=TSRES.PS4,fractional=False)
done(list(p)==ps, list(p))
''', needs="two simultaneous events in decreasing pattern order, streamed into a legacy file", breaks="events change order"),
dict(id="t09-batch-patterns", property="T09",
 edits=[(PT,"""            if first_t is None:
                first_t = t[0] / resolution.value""","""            if not first_t:
                first_t = t[0] / resolution.value""")],
 demo=H+'''
import io, contextlib
o=io.StringIO()
s=iter([(np.array([0,256]),np.array([1,2])),(np.array([512000000000]),np.array([4]))])
with contextlib.redirect_stdout(o):
    pt.print_statistics_stream("x",s,resolution=TSRES.PS4,display=False)
done("~ start    :     0.000000000" in o.getvalue(), o.getvalue())
''', needs="a first event at timestamp zero followed by at least one more batch", breaks="reported start time and duration ignore the first batch"),
]
