PE="lib/parse_epochs.py"; UT="lib/utils.py"
H='''import os, sys, tempfile, struct, warnings, datetime
import numpy as np
from fpfind import TSRES
from fpfind.lib import parse_epochs as pe, utils as ut
d = tempfile.mkdtemp(); os.chdir(d)
def wr(n, s):
    with open(n, 'wb') as f: f.write(s)
def pack_bits(fields):
    b = "".join(format(v, f"0{w}b") for v, w in fields)
    b += "0" * (-len(b) % 32)
    return b"".join(struct.pack("<I", int(b[i:i+32], 2)) for i in range(0, len(b), 32))
def done(ok, msg=""):
    import shutil; os.chdir("/"); shutil.rmtree(d, ignore_errors=True)
    print("ok" if ok else "BROKEN " + str(msg)); sys.exit(0 if ok else 1)
'''
BUGS=[
dict(id="e01-epoch-bit16", property="E01",
 edits=[(PE,"timestamp_epoch = ((full_epoch & ((1<<17)-1)) << (32 + 5))","timestamp_epoch = ((full_epoch & 0xffff) << (32 + 5))")],
 demo=H+'''
e=0xba1f36c0|0x10000
p=pe.write_T1(".", e, [5,9],[1,2])
t,b=pe.read_T1(p,full_epoch=True,resolution=TSRES.PS4,fractional=False)
done([int(x) for x in t]==[(e<<37)+5,(e<<37)+9], t)
''', needs="an epoch whose bit 16 is set", breaks="written T1 timestamps lose one epoch bit"),
dict(id="e02-shift-order", property="E02",
 edits=[(PE,"epoch_msb = np.uint64(epoch_msb) << np.uint64(54-bitdiff)","epoch_msb = np.uint64(epoch_msb) << np.uint64(54) >> np.uint64(bitdiff)")],
 demo=H+'''
e=0xba1f36c0; T=(e & 0x1ffff)<<37
wr("ba1f36c0",struct.pack("<iIIii",0x101,e,0,49,4)+struct.pack("<II",((T<<10)|3)>>32,((T<<10)|3)&0xffffffff)+bytes(8))
t,b=pe.read_T1("ba1f36c0",full_epoch=True,resolution=TSRES.PS125,fractional=False)
done(int(t[0])==e<<32, t)
''', needs="integer output with full epoch at 125 ps or 1 ns for an epoch of 2^27 or more", breaks="the uppermost epoch bits are shifted out before scaling"),
dict(id="e03-surplus-events", property="E03",
 edits=[(PE,"if length and len(indices) != length:","if length and len(indices) < length:")],
 demo=H+'''
wr("1",struct.pack("<IIIII",0x104,1,1,16,4)+pack_bits([(5,16),(1,4),(6,16),(2,4),(1,16),(0,4)]))
try:
    r=pe.read_T4("1"); done(False, r)
except ValueError:
    done(True)
''', needs="a T4 file holding more events than its header announces", breaks="inconsistent T4 files are returned as data"),
dict(id="e04-eager-word", property="E04",
 edits=[(PE,"if size < msb_size and fileobject:","if size <= msb_size and fileobject:")],
 demo=H+'''
wr("1",struct.pack("<iIIiii",0x102,1,0,12,4,0)+pack_bits([(5,12),(3,4),(1,12),(0,4)]))
try:
    t,b=pe.read_T2("1"); done(list(b)==[3], b)
except ValueError as e:
    done(False, e)
''', needs="a field ending exactly at the end of the last 32-bit word", breaks="a further word is demanded beyond the end of the file"),
dict(id="e05-int64-epoch", property="E05",
 edits=[(PE,"""    epoch_msb = header.epoch >> 17

    # Right now in units of 125ps
    # Check if need to store floating point
    if fractional:
        # Convert to desired resolution
        timestamps = np.array(timestamps, dtype=np.float128)
        timestamps = timestamps / (TSRES.PS125.value/resolution.value)
        epoch_msb = np.float128(epoch_msb << 49)""","""    epoch_msb = np.int64(header.epoch >> 17)

    # Right now in units of 125ps
    # Check if need to store floating point
    if fractional:
        # Convert to desired resolution
        timestamps = np.array(timestamps, dtype=np.float128)
        timestamps = timestamps / (TSRES.PS125.value/resolution.value)
        epoch_msb = np.float128(epoch_msb << 49)""")],
 demo=H+'''
e=0xba1f36c0
wr("ba1f36c0",struct.pack("<iIIiii",0x102,e,0,12,4,0)+pack_bits([(5,12),(3,4),(1,12),(0,4)]))
t,b=pe.read_T2("ba1f36c0",full_epoch=True)
done(t[0]==np.float128((e<<32)+5)/8, t)
''', needs="full epoch with fractional output for an epoch of 2^31 or more", breaks="the upper epoch bits overflow a signed 64-bit integer"),
dict(id="e06-extended-offset", property="E06",
 edits=[(PE,"""                time_dindex, buffer, size = \\
                    extract_bits(timeorder_extended, buffer, size, f)

            # Index retrieved, normalize
            time_index += time_dindex - 2
""","""                time_dindex, buffer, size = \\
                    extract_bits(timeorder_extended, buffer, size, f)
            else:
                time_dindex -= 2

            # Index retrieved, normalized
            time_index += time_dindex
""")],
 demo=H+'''
wr("1",struct.pack("<IIIII",0x104,1,0,12,4)+pack_bits([(5,12),(3,4),(0,12),(9000,32),(4,4),(1,12),(0,4)]))
t,b=pe.read_T4("1")
done(list(t)==[3,9001], t)
''', needs="an index difference in the extended 32-bit form", breaks="extended differences are not offset by two"),
dict(id="e07-garbage-both", property="E07",
 edits=[(PE,"""            if a < 0:
                service.garbage[0] += 1
            if b < 0:""","""            if a < 0:
                service.garbage[0] += 1
            elif b < 0:""")],
 demo=H+'''
wr("1",struct.pack("<iIIi",0x103,1,3,8)+bytes([0x33,0x12,0x21,0]))
s=pe.read_T3("1")
done(s.garbage==[1,1], s.garbage)
''', needs="a detection that is not a single bit on both sides", breaks="such a detection is counted as garbage for one side only"),
dict(id="e08-date-rounding", property="E08",
 edits=[(PE,"return dt.datetime.fromtimestamp(total_seconds)","return dt.datetime.fromtimestamp(round(total_seconds, 5))")],
 demo=H+'''
bad=[e for e in range(0xba1f3600,0xba1f3640) if abs(pe.epoch2date(f"{e:x}").timestamp()-e*0.536870912)>2e-6]
done(not bad, bad)
''', needs="an epoch whose start is not a multiple of 10 us", breaks="the date of an epoch is off by up to 5 us"),
dict(id="e09-one-sided-run", property="E09",
 edits=[(UT,"while (min_epochint + num_epochs) in epochints:","while (min_epochint + num_epochs) in epochints1:")],
 demo=H+'''
for n,l in (("a",(5,6,7,8)),("b",(5,6,8))):
    os.mkdir(n)
    for e in l: wr(f"{n}/{e:x}",b"")
r=ut.get_first_overlapping_epoch("a","b",return_length=True)
done(r==("5",2), r)
''', needs="an epoch missing in the second directory only", breaks="the length of the common run counts epochs of the first directory alone"),
dict(id="e10-unique", property="E10",
 edits=[(UT,"    return timestamp\n","    return np.unique(timestamp)\n")],
 demo=H+'''
pe.write_T1(".",5,[100,100,200],[1,2,1])
t=ut.get_timestamp(".","T1","5",0,1)
done(len(t)==3, t)
''', needs="two detectors firing at the same time", breaks="simultaneous events are merged"),
dict(id="u01-first-in-place", property="U01",
 edits=[(UT,"        ts = ts - ts[0]\n","        ts -= ts[0]\n")],
 demo=H+'''
a=np.array([5.,6.,9.]); b=np.array([1.,2.,8.])
ut.normalize_timestamps(a,b,preserve_relative=False)
done(list(a)==[5.,6.,9.] and list(b)==[1.,2.,8.], (a,b))
''', needs="slicing without a start (or normalising without relative times)", breaks="the caller's array is modified"),
dict(id="u02-integer-order", property="U02",
 edits=[(UT,"sort = ys_raw.argsort()[::-1]  # descending order","sort = np.int64(ys_raw).argsort(kind='stable')[::-1]  # descending order")],
 demo=H+'''
import itertools
bad=[]
for q in itertools.permutations([5.75,5.5,5.25,5.0]):
    h=np.array(q); r=[float(x[0]) for x in ut.get_top_k_delays_fft(h,np.arange(4),3)] 
    if r!=[5.75,5.5,5.25]: bad.append((q,r))
done(not bad, bad[:3])
''', needs="peaks whose heights differ by less than one count", breaks="the top-k list is not in descending order"),
dict(id="u03-truncated-bin", property="U03",
 edits=[(UT,"np.int64((arr // time_res) % num_bins), minlength=num_bins","np.int64(arr / time_res) % num_bins, minlength=num_bins")],
 demo=H+'''
import scipy.fft
f=ut.generate_fft(np.array([-0.5,3.0]),8,1)
h=np.rint(scipy.fft.irfft(f,8))
done(list(h)==[0,0,0,1,0,0,0,1], h)
''', needs="an event before the origin (negative time) that is not on a bin edge", breaks="the event is put in the bin above its own"),
dict(id="u04-rint-bins", property="U04",
 edits=[(UT,"np.int64((arr // time_res) % num_bins), minlength=num_bins","np.int64(np.rint(arr / time_res)) % num_bins, minlength=num_bins")],
 demo=H+'''
a=np.array([0.5,4.5])
x=ut.get_xcorr(ut.generate_fft(a,16,1),ut.generate_fft(a+1,16,1))
r=ut.get_timing_delay_fft(x,np.arange(16)*1.0)
done(r[0]==1, r)
''', needs="events lying exactly half way between bin centres", breaks="halves are rounded to even bins, so a delay by one bin is seen as none or two"),
dict(id="u05-right-background", property="U05",
 edits=[(UT,"hist[bin_offset_right + 1 : bin_offset_right_bg + 1]","hist[min(bin_offset_right + 1, len(hist) - 1) : bin_offset_right_bg + 1]")],
 demo=H+'''
h=np.arange(8)*1.0
s=ut.get_statistics(h,1,window=4)
done(not set(s.signal)&set(s.background), (s.signal,s.background))
''', needs="a signal window reaching the end of the histogram", breaks="the last bin is counted as signal and as background"),
]
