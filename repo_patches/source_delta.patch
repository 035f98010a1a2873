From 5b0492103b57662256f5e3a593d72b1d76f793f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 01/28] fix: keep full timestamp precision when reading a0
 files

Hex words parsed as int64 were added to uint64, which numpy promotes to
float64: timestamps of 2^53 and above lost their lowest bit, and raw
integer timestamps came back as floats.
---
 src/fpfind/lib/parse_timestamps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index 24200ab..44916b0 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -105,7 +105,7 @@ def read_a0(
         the function signature to maintain parity with 'read_a1'.
     """
     data = np.genfromtxt(filename, delimiter="\n", dtype="U8")
-    data = np.array([int(v,16) for v in data]).reshape(-1, 2)
+    data = np.array([int(v,16) for v in data], dtype=np.uint32).reshape(-1, 2)
     t = ((np.uint64(data[:, 1]) << 22) + (data[:, 0] >> 10))
     t = _format_timestamps(t, resolution, fractional)
     p = data[:, 0] & 0xF
@@ -217,7 +217,7 @@ def sread_a0(
                     break
 
                 data = buffer.strip().split("\n")
-                data = np.array([int(v,16) for v in data]).reshape(-1, 2)
+                data = np.array([int(v,16) for v in data], dtype=np.uint32).reshape(-1, 2)
                 t = ((np.uint64(data[:, 1]) << 22) + (data[:, 0] >> 10))
                 t = _format_timestamps(t, resolution, fractional)
                 p = data[:, 0] & 0xF
-- 
2.43.0


From 725be1243f90c563a565294de60c23ebc0e990d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 02/28] fix: read a2 files with event words on both sides of
 2^63

A mix of words below and above 2^63 made numpy choose float64, for which
the bit shift raises a TypeError.
---
 src/fpfind/lib/parse_timestamps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index 44916b0..cb14b85 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -135,7 +135,7 @@ def read_a2(
     ):
     """See documentation for 'read_a0'."""
     data = np.genfromtxt(filename, delimiter="\n", dtype="U16")
-    data = np.array([int(v,16) for v in data])
+    data = np.array([int(v,16) for v in data], dtype=np.uint64)
     t = np.uint64(data >> 10)
     t = _format_timestamps(t, resolution, fractional)
     p = data & 0xF
@@ -243,7 +243,7 @@ def sread_a2(
                     break
 
                 data = buffer.strip().split("\n")
-                data = np.array([int(v,16) for v in data])
+                data = np.array([int(v,16) for v in data], dtype=np.uint64)
                 t = np.uint64(data >> 10)
                 t = _format_timestamps(t, resolution, fractional)
                 p = data & 0xF
-- 
2.43.0


From 24ad2657d6bc1f998403e203e0fa3b617258c3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 03/28] fix: read a2 files holding a single event

genfromtxt returns a 0-d array for one line, which cannot be iterated.
---
 src/fpfind/lib/parse_timestamps.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index cb14b85..a6ed7d4 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -135,6 +135,7 @@ def read_a2(
     ):
     """See documentation for 'read_a0'."""
     data = np.genfromtxt(filename, delimiter="\n", dtype="U16")
+    data = np.atleast_1d(data)  # single event yields 0-d array
     data = np.array([int(v,16) for v in data], dtype=np.uint64)
     t = np.uint64(data >> 10)
     t = _format_timestamps(t, resolution, fractional)
-- 
2.43.0


From ae72628f52091334b3657f8d87874aa2cebd7eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:40 +0000
Subject: [PATCH 04/28] fix: report statistics of files spanning zero duration

A single event (or only simultaneous ones) made the event rate infinite,
and its conversion to an integer raised an OverflowError.
---
 src/fpfind/lib/parse_timestamps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index a6ed7d4..9ea5d4a 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -515,7 +515,8 @@ def print_statistics_report(
         print(f"Duration (s) : {duration:15.9f}")
         print(f"  ~ start    : {start_timestamp*1e-9:>15.9f}")
         print(f"  ~ end      : {end_timestamp*1e-9:>15.9f}")
-        print(f"Event rate (/s) : {int(num_events//duration)}")
+        rate = int(num_events//duration) if duration > 0 else "undefined"
+        print(f"Event rate (/s) : {rate}")
         print(f"Detection patterns: {patterns}")
 
 
-- 
2.43.0


From 29ed95739d7d3114b7ad4706e7a119cbc14b2976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 05/28] fix: report in-memory statistics when no event is
 selected

---
 src/fpfind/lib/parse_timestamps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index 9ea5d4a..365b693 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -424,8 +424,8 @@ def print_statistics(filename: str, t: list, p: list):
         ch4_counts=count(p & 0b1000 != 0),
         multi_counts=count(np.isin(p, (0, 1, 2, 4, 8), invert=True)),
         non_counts=count(p == 0),
-        start_timestamp=t[0],
-        end_timestamp=t[-1],
+        start_timestamp=t[0] if len(t) != 0 else None,
+        end_timestamp=t[-1] if len(t) != 0 else None,
         patterns=sorted(np.unique(p)),
     )
 
-- 
2.43.0


From 63c601681587cbee17f4adaed5dfc85fede75145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 06/28] fix: freqcd keeps accumulated correction when a read
 completes no event

---
 src/fpfind/freqcd.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 146f0c4..000addf 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -380,8 +380,10 @@ int main(int argc, char *argv[]) {
             }
 
             /* update reference timestamp to keep within 20 hour overflow condition */
-            tsref = tsmeas;
-            tsoverflowcorr += tscorr;
+            if (eventnum > 0) {  // 'tsmeas' and 'tscorr' otherwise stale
+                tsref = tsmeas;
+                tsoverflowcorr += tscorr;
+            }
         }
 
         // Read frequency correction values
-- 
2.43.0


From 56d30c8ac78458e9a728f0260efdc1cf9f2b1772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 07/28] fix: freqcd rejects frequency values that do not fit in
 an int

---
 src/fpfind/freqcd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 000addf..908d1c6 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -129,7 +129,7 @@ int readint(char *buff) {
     long value;
     value = strtol(buff, &end, 10);
     // string is a decimal, zero-terminated, and fits in an int
-    if ((end != buff) && (*end == 0) && (abs(value) < INT_MAX))
+    if ((end != buff) && (*end == 0) && (value > -INT_MAX) && (value < INT_MAX))
         return (int)value;
     return INT_MAX;
 }
-- 
2.43.0


From 9190d9d72c03e830fcbc912cf569537293fd1dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 08/28] fix: freqcd rejects malformed and overflowing '-f'
 values

---
 src/fpfind/freqcd.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 908d1c6..f8df107 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -193,7 +193,8 @@ int main(int argc, char *argv[]) {
             freqfilename[FNAMELENGTH-1] = 0;  // security termination
             break;
         case 'f':
-            if (sscanf(optarg, "%d", &fcorr) != 1) return -emsg(4);
+            fcorr = readint(optarg);
+            if (fcorr == INT_MAX) return -emsg(4);
             break;
         case 'x':
             islegacy = 1;
-- 
2.43.0


From 5cae9bd19b9071a44cf83f24fbddebbf16c6e0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 09/28] fix: freqcd checks decimal offsets for range before
 converting to int

---
 src/fpfind/freqcd.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index f8df107..b4c777d 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -210,7 +210,11 @@ int main(int argc, char *argv[]) {
 
     /* check specified frequency correction is within-bounds */
     // needs to be done after argument reading for position-agnostic '-f'
-    if (isdecimal) fcorr = (int) fcorr * FCORR_DTOB;
+    if (isdecimal) {
+        double fcorr_binary = fcorr * FCORR_DTOB;
+        if (fabs(fcorr_binary) >= FCORR_MAX) return -emsg(5);  // may not fit in int
+        fcorr = (int) fcorr_binary;
+    }
     if (abs(fcorr) >= FCORR_MAX) return -emsg(5);
 
     /* set input and output handler */
-- 
2.43.0


From cad429dffda65c88a086f9fe43ceb7bbb0742a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 10/28] fix: freqcd file name buffers hold the longest name
 read into them

---
 src/fpfind/freqcd.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index b4c777d..33b18c8 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -171,9 +171,10 @@ int main(int argc, char *argv[]) {
 
     /* parse options */
     int fcorr = FCORR_DEFAULT;  // frequency correction value
-    char infilename[FNAMELENGTH] = {};  // store filename
-    char outfilename[FNAMELENGTH] = {};  // store filename
-    char freqfilename[FNAMELENGTH] = {};  // store filename
+    // sscanf writes up to FNAMELENGTH characters and a terminator
+    char infilename[FNAMELENGTH+1] = {};  // store filename
+    char outfilename[FNAMELENGTH+1] = {};  // store filename
+    char freqfilename[FNAMELENGTH+1] = {};  // store filename
     int islegacy = 0;  // mark if format is legacy
     int isdecimal = 0;  // mark if frequency input is in decimal units
     int opt;  // for getopt options
-- 
2.43.0


From f59ceb4e7297442bbdb200dfbc5b417d9daecb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 11/28] fix: freqcd handles roll-over of the 54-bit input
 timestamp

---
 src/fpfind/freqcd.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 33b18c8..5a54b86 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -161,6 +161,7 @@ int main(int argc, char *argv[]) {
     /* other constants */
     const int INBUFSIZE = INBUFENTRIES * sizeof(struct rawevent);
     const int OUTBUFSIZE = OUTBUFENTRIES * sizeof(struct rawevent);
+    const unsigned long long TSMASK = ((unsigned long long)1 << 54) - 1;  // timestamp width
     const int FCORR_MAX = 1 << (FCORR_AMAXBITS - FCORR_ARESBITS);
     const int FCORR_TBITS1 = -FCORR_AMAXBITS - 1;  // bit truncations when correcting timestamp
     const int FCORR_TBITS2 = (FCORR_AMAXBITS - FCORR_ARESBITS) + 1;
@@ -364,7 +365,8 @@ int main(int argc, char *argv[]) {
                 tsmeas = ((ull)high << 22) | (low >> 10);
 
                 /* calculate timestamp correction */
-                tscorr = ((ll)((tsmeas - tsref) >> FCORR_TBITS1) * fcorr) >> FCORR_TBITS2;
+                // elapsed time is modulo 54 bits, since timestamp counter rolls over
+                tscorr = ((ll)(((tsmeas - tsref) & TSMASK) >> FCORR_TBITS1) * fcorr) >> FCORR_TBITS2;
                 ts = tsmeas + tscorr + tsoverflowcorr;
 
                 /* write corrected timestamp to output buffer */
-- 
2.43.0


From 0cd4e12836a2c63222e2cff4b81a43d7c2e35111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 12/28] fix: freqcd keeps partial frequency values across reads

---
 src/fpfind/freqcd.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 5a54b86..eaf5b9c 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -256,6 +256,7 @@ int main(int argc, char *argv[]) {
     int freqbytesread = 0;
     int freqbytesread_next = 0;
     int freqbytespartial = 0;  // size of partial freqcorr value remaining
+    int freqskip = 0;  // marker for discarding remainder of an overlong line
     char *freqbuffer_next;
     if (freqhandle) {  // allocate memory only if needed
         freqbuffer = (char *)malloc(FREQBUFSIZE);
@@ -425,7 +426,8 @@ int main(int argc, char *argv[]) {
                 if (freqbuffer[i] == '\n') {
                     freqbuffer[i] = 0;  // zero-terminate for readint
                     fcorr_tmp = readint(&freqbuffer[next_num_idx]);
-                    if (abs(fcorr_tmp) < FCORR_MAX) fcorr = fcorr_tmp;
+                    if (!freqskip && (abs(fcorr_tmp) < FCORR_MAX)) fcorr = fcorr_tmp;
+                    freqskip = 0;
 #ifdef __DEBUG__
                     fprintf(stderr, "[debug] 'fcorr' updated to '%d'.\n", fcorr);
 #endif
@@ -434,13 +436,15 @@ int main(int argc, char *argv[]) {
             }
 
             /* clear parsed numbers from freqbuffer */
-            if (next_num_idx > 0) {
-                freqbytespartial = freqbytesread - next_num_idx;
-                for (i = freqbytesread - freqbytespartial, j = 0; j < freqbytespartial; i++, j++) {
-                    freqbuffer[j] = freqbuffer[i];
-                }
-                freqbuffer_next = &freqbuffer[freqbytespartial];
+            freqbytespartial = freqbytesread - next_num_idx;
+            for (i = freqbytesread - freqbytespartial, j = 0; j < freqbytespartial; i++, j++) {
+                freqbuffer[j] = freqbuffer[i];
+            }
+            if (freqbytespartial >= FREQBUFSIZE - 1) {  // too long to be a valid number
+                freqbytespartial = 0;
+                freqskip = 1;  // ignore remainder of line as well
             }
+            freqbuffer_next = &freqbuffer[freqbytespartial];
         }
 
         // TODO: Shift this back to select call to write only when pipe available,
-- 
2.43.0


From fc7f60016b72c471517137f290d9001136521e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 13/28] fix: freqcd ignores frequency lines with embedded null
 bytes

---
 src/fpfind/freqcd.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index eaf5b9c..dd7abd3 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -71,6 +71,7 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>  // strlen
 #include <fcntl.h>   // open, O_RDONLY, O_NONBLOCK
 #include <sys/select.h> // fd_set, usually implicitly declared
 #include <unistd.h>  // getopt, select
@@ -426,6 +427,7 @@ int main(int argc, char *argv[]) {
                 if (freqbuffer[i] == '\n') {
                     freqbuffer[i] = 0;  // zero-terminate for readint
                     fcorr_tmp = readint(&freqbuffer[next_num_idx]);
+                    if (strlen(&freqbuffer[next_num_idx]) != i - next_num_idx) fcorr_tmp = INT_MAX;
                     if (!freqskip && (abs(fcorr_tmp) < FCORR_MAX)) fcorr = fcorr_tmp;
                     freqskip = 0;
 #ifdef __DEBUG__
-- 
2.43.0


From abf2e6dad200d4f2929aa1453d257058b41ff389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:52 +0000
Subject: [PATCH 14/28] fix: write_T1 accepts numpy integer timestamps

---
 src/fpfind/lib/parse_epochs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 6f472a9..4ac0b3a 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -406,7 +406,7 @@ def write_T1(directory, full_epoch, timestamps, detectors):
         # 17-bit LSB epoch fits into a timestamp event
         timestamp_epoch = ((full_epoch & ((1<<17)-1)) << (32 + 5))
         for timestamp, detector in zip(timestamps, detectors):
-            full_timestamp = timestamp_epoch + timestamp
+            full_timestamp = timestamp_epoch + int(timestamp)
             event = (full_timestamp << 10) + int(detector)
 
             # Write high word, then low word
-- 
2.43.0


From 807cb8daf84a9e94300c5f3fc88d9bcfac4c2946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:12 +0000
Subject: [PATCH 15/28] fix: read_T2 integer timestamps finer than 125 ps

---
 src/fpfind/lib/parse_epochs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 4ac0b3a..44d8907 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -309,7 +309,7 @@ def read_T2(
     # Add 17-bit epoch LSB as per regular timestamp spec,
     # i.e. (17-bit epoch LSB)(32-bit timestamp) => 49-bits
     epoch_lsb = header.epoch & ((1 << 17) - 1)
-    timestamp = np.uint64(epoch_lsb << 32)  # current timestamp, deltas stored in T2
+    timestamp = epoch_lsb << 32  # current timestamp, deltas stored in T2
     buffer = 0
     size = 0  # number of bits in buffer
     with open(filename, "rb") as f:
-- 
2.43.0


From f18f2d56422c08473ae4280b76fee68b8e2a620d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:12 +0000
Subject: [PATCH 16/28] fix: reject T2 and T4 files ending before their
 terminator

---
 src/fpfind/lib/parse_epochs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 44d8907..a2af1f4 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -264,8 +264,11 @@ def extract_bits(msb_size: int, buffer: int, size: int, fileobject=None):
     """
     # Append word from fileobject if insufficient bits
     if size < msb_size and fileobject:
+        word = fileobject.read(4)
+        if len(word) < 4:
+            raise ValueError("File ended before termination bits")
         buffer <<= 32
-        buffer += int.from_bytes(fileobject.read(4), byteorder="little")
+        buffer += int.from_bytes(word, byteorder="little")
         size += 32
 
     # Extract MSB from buffer
-- 
2.43.0


From 314ab976f40286bd2597bf2b8cf07e738bfa5f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:12 +0000
Subject: [PATCH 17/28] fix: reject T1 files ending within an event

---
 src/fpfind/lib/parse_epochs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index a2af1f4..5605366 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -186,6 +186,8 @@ def read_T1(
         while True:
             event_high = f.read(4)
             event_low = f.read(4)
+            if len(event_high) + len(event_low) not in (0, 8):
+                raise ValueError("File ended within an event")
 
             value = \
                 (int.from_bytes(event_high, byteorder="little") << 32) \
-- 
2.43.0


From 89fc0662306ce895acf136862658c015f45ea863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:33 +0000
Subject: [PATCH 18/28] fix: date2epoch at seconds on an epoch boundary

---
 src/fpfind/lib/parse_epochs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 5605366..34dbaaa 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -114,7 +114,7 @@ def date2epoch(datetime=None):
         datetime = dt.datetime.now()
 
     total_seconds = int(datetime.timestamp())
-    epoch_val = int(total_seconds/125e-12) >> 32
+    epoch_val = (total_seconds * 8_000_000_000) >> 32  # units of 125ps
     return f"{epoch_val:08x}"
 
 
-- 
2.43.0


From f0a750e809d046892bf9b36cdddc7a44d1893d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:24 +0000
Subject: [PATCH 19/28] fix: keep one time axis across epoch counter roll-over

---
 src/fpfind/lib/utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/utils.py b/src/fpfind/lib/utils.py
index d11d69d..f1450ee 100644
--- a/src/fpfind/lib/utils.py
+++ b/src/fpfind/lib/utils.py
@@ -404,10 +404,15 @@ def get_first_overlapping_epoch(
 def get_timestamp(dirname, file_type, first_epoch, skip_epoch, num_of_epochs):
     epochdir = pathlib.Path(dirname)
     timestamp = np.array([], dtype=np.float128)
+    first_epochint = epoch2int(first_epoch) + skip_epoch
     for i in range(num_of_epochs):
-        epoch_name = epochdir / int2epoch(epoch2int(first_epoch) + skip_epoch + i)
+        epochint = first_epochint + i
+        epoch_name = epochdir / int2epoch(epochint)
         reader = read_T1 if file_type == "T1" else read_T2
-        timestamp = np.append(timestamp, reader(epoch_name)[0])
+
+        # Only 17 epoch bits are in a timestamp, i.e. roll over every 2^46 ns
+        rollovers = (epochint >> 17) - (first_epochint >> 17)
+        timestamp = np.append(timestamp, reader(epoch_name)[0] + rollovers * 2**46)
     return timestamp
 
 def normalize_timestamps(*T, skip: float = 0.0, preserve_relative: bool = True):
-- 
2.43.0


From b15e605bd4a0c035e5af7e5b0c482dba71b84f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:24 +0000
Subject: [PATCH 20/28] fix: slice unsigned timestamps and ranges without
 events

---
 src/fpfind/lib/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fpfind/lib/utils.py b/src/fpfind/lib/utils.py
index f1450ee..f8686df 100644
--- a/src/fpfind/lib/utils.py
+++ b/src/fpfind/lib/utils.py
@@ -266,11 +266,10 @@ def slice_timestamps(
     duration: float = None,
 ):
     if start is not None:
-        ts = ts - start  # note: 'ts -= start' is in-place
-        ts = ts[ts >= 0]
+        ts = ts[ts >= start] - start  # note: 'ts -= start' is in-place
     else:
         ts = ts - ts[0]
-    if duration is not None:
+    if duration is not None and len(ts) > 0:
         if duration >= ts[-1]:
             warnings.warn(
                 f"Desired duration ({duration*1e-9:.3f} s) is longer "
-- 
2.43.0


From e6526ffa04aa08f4f0622a86ba87369c3c1e5ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:24 +0000
Subject: [PATCH 21/28] fix: peak statistics around a given center

---
 src/fpfind/lib/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/utils.py b/src/fpfind/lib/utils.py
index f8686df..ad9d4e4 100644
--- a/src/fpfind/lib/utils.py
+++ b/src/fpfind/lib/utils.py
@@ -142,9 +142,9 @@ def get_statistics(
     if center is None:
         bin_center = np.argmax(hist)
     else:
-        bin_center = np.abs(center) // resolution
+        bin_center = int(np.abs(center) // resolution)
         if center < 0:
-            bin_center = len(hist) - bin_center
+            bin_center = -bin_center % len(hist)
 
     # Retrieve size of symmetrical window
     num_windowbins_onesided = int(np.ceil(window / 2 / resolution))
-- 
2.43.0


From 1fcf22aef47709c3c67e48a41e06a4cc12fb2dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:19 +0000
Subject: [PATCH 22/28] fix: honour -x when generating freqcd testcases

LEGACY was assigned as a local of main(), so get_event() always wrote the
non-legacy layout.
---
 src/fpfind/lib/generate_freqcd_testcase.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fpfind/lib/generate_freqcd_testcase.py b/src/fpfind/lib/generate_freqcd_testcase.py
index 2be66eb..e21f73a 100644
--- a/src/fpfind/lib/generate_freqcd_testcase.py
+++ b/src/fpfind/lib/generate_freqcd_testcase.py
@@ -71,6 +71,7 @@ def owrite(event):
     sys.stdout.flush()
 
 def main():
+    global LEGACY
     parser = argparse.ArgumentParser(description="Generates binary timestamp events for testing freqcd.")
     parser.add_argument("-o", help="output file, defaults to stdout stream")
     parser.add_argument("-t", type=int, nargs="+", help="list of timestamps in decimal")
-- 
2.43.0


From bbde2e771f7d42890a1d3b386b589155d0d1c6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:19 +0000
Subject: [PATCH 23/28] fix: do not overwrite the event file given to
 generate_freqcd_testcase

The input file was truncated and replaced with the contents of stdin before
being read; only the temporary file holding stdin should be written.
---
 src/fpfind/lib/generate_freqcd_testcase.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/generate_freqcd_testcase.py b/src/fpfind/lib/generate_freqcd_testcase.py
index e21f73a..cb21608 100644
--- a/src/fpfind/lib/generate_freqcd_testcase.py
+++ b/src/fpfind/lib/generate_freqcd_testcase.py
@@ -115,8 +115,9 @@ def main():
 
         # Read binary timestamps from file
         try:
-            with open(inputfile, "wb") as f:
-                f.write(sys.stdin.buffer.read())
+            if HAS_TEMP_FILE:
+                with open(inputfile, "wb") as f:
+                    f.write(sys.stdin.buffer.read())
 
             # Parsing binary timestamps
             ts, _ = ts_parser.read_a1(inputfile, args.x)
-- 
2.43.0


From 16bb46b40e9ae27ffea46a8ca61e0d902106690e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:19 +0000
Subject: [PATCH 24/28] fix: return the peak found when scanning all
 precompensations

With precompensation_fullscan the loop never breaks, so the else branch
always raised 'No peak found!' even when peaks were found.
---
 src/fpfind/fpfind.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index e06acf2..ae651dc 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -347,6 +347,7 @@ def fpfind(
         precompensation_fullscan: Specify whether to continue even after peak found.
     """
     df0s = precompensations
+    found = None
 
     # Go through all precompensations
     for df0 in df0s:
@@ -375,16 +376,16 @@ def fpfind(
         logger.info(f"Peak found,          {df0*1e6:7.3f} ppm: {str(e)}")
         # TODO: Justify the good enough frequency value
         # TODO(2024-01-31): Add looping code to customize refinement steps.
-        if precompensation_fullscan:
-            continue
-        break
+        if found is None:
+            found = (dt, f - 1)
+        if not precompensation_fullscan:
+            break
 
     # No appropriate frequency compensation found
-    else:
+    if found is None:
         raise ValueError("No peak found!")  # TODO
 
-    df = f - 1
-    return dt, df
+    return found
 
 
 def generate_precompensations(start, stop, step, ordered=False) -> list:
-- 
2.43.0


From f117fd9c523b443da617eadf3e8ec76cc11af611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:19 +0000
Subject: [PATCH 25/28] fix: invert the time offset consistently with the
 frequency offset

B = f*A + t is inverted by A = B/f - t/f, so the inverted time offset is
-t/f, not -t*f.
---
 src/fpfind/fpfind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index ae651dc..3a648ec 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -664,7 +664,7 @@ def main():
     # Use if the low-count side is undergoing frequency correction
     flag = args.output
     if flag & 0b0001:
-        dt = -dt * (1 + df)    # t_alice * (1 + f_alice) + t_bob = 0
+        dt = -dt / (1 + df)    # t_alice * (1 + f_bob) + t_bob = 0
         df = 1 / (1 + df) - 1  # (1 + f_alice) * (1 + f_bob) = 1
     if flag & 0b0010:
         df = f"{round(df * (1 << 34)):d}"
-- 
2.43.0


From 1d06a11b16e2b392e5c60c9cb0013add4dcf5cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:12 +0000
Subject: [PATCH 26/28] fix: stop refining when the separation is too short for
 it

---
 src/fpfind/fpfind.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index 3a648ec..26b65fb 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -300,9 +300,14 @@ def time_freq(
         if resolution == target_resolution:
             break
 
+        # Stop if separation is too short to refine resolution any further
+        refinement = separation_duration / duration / RES_REFINE_FACTOR
+        if refinement <= 1:
+            break
+
         # Update for next iteration
         bts = (bts - dt1) / (1 + df1)
-        resolution /= (separation_duration / duration / RES_REFINE_FACTOR)
+        resolution /= refinement
         resolution = max(resolution, target_resolution)
         curr_iteration += 1
 
-- 
2.43.0


From a29a3fce44ae71f18461ff344d8ae930e37266d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:11 +0000
Subject: [PATCH 27/28] fix: peak statistics failed without background, raw
 significance always failed

---
 src/fpfind/lib/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fpfind/lib/utils.py b/src/fpfind/lib/utils.py
index ad9d4e4..f270964 100644
--- a/src/fpfind/lib/utils.py
+++ b/src/fpfind/lib/utils.py
@@ -78,26 +78,26 @@ class PeakStatistics:
 
     @property
     def total(self):
-        if len(self.signal) == 0:
+        if len(self.signal) == 0 or len(self.background) == 0:
             return None
         return sum(self.signal) - len(self.signal) * self.mean
 
     @property
     def significance(self):
-        if self.stdev == 0:
+        if not self.stdev:  # flat, or no background at all
             return 0
         return round((self.max - self.mean) / self.stdev, 3)
 
     @property
     def significance_raw(self):
-        if self.stdev == 0:
+        if not self.stdev:
             return None
-        full = np.hstack(self.signal, self.background)
+        full = np.hstack((self.signal, self.background))
         return (np.max(full) - np.mean(full)) / np.std(full)
 
     @property
     def significance2(self):
-        if self.stdev == 0:
+        if not self.stdev:
             return None
         # Estimate stdev after grouping in bins of 'len(signal)'
         length = (len(self.background) // len(self.signal)) * len(self.signal)
@@ -113,7 +113,7 @@ class PeakStatistics:
 
     @property
     def g2(self):
-        if self.mean == 0:
+        if not self.mean:
             return None
         return self.max / self.mean
 
-- 
2.43.0


From 38ffe845d0c1beda3d76cfdaa176d22977a4fdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:39 +0000
Subject: [PATCH 28/28] fix: histogram_fft always failed, and modified the
 series given to it

---
 src/fpfind/lib/utils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/fpfind/lib/utils.py b/src/fpfind/lib/utils.py
index f270964..ccb89e6 100644
--- a/src/fpfind/lib/utils.py
+++ b/src/fpfind/lib/utils.py
@@ -314,13 +314,15 @@ def histogram_fft(
 
     # Normalize timestamps
     acq_start = 0 if acq_start is None else acq_start
-    alice -= first_timestamp + acq_start
-    bob -= first_timestamp + acq_start
-    bob = bob * (1 + freq_corr)
+    start = first_timestamp + acq_start
+    alice = slice_timestamps(alice, start, duration)
+    bob = slice_timestamps(bob, start) * (1 + freq_corr)
+    bob = slice_timestamps(bob, 0, duration)
+    alen, blen = len(alice), len(bob)
 
     # Generate FFT
-    afft, alen = generate_fft(alice, num_bins, resolution, 0, duration)
-    bfft, blen = generate_fft(bob, num_bins, resolution, 0, duration)
+    afft = generate_fft(alice, num_bins, resolution)
+    bfft = generate_fft(bob, num_bins, resolution)
     result = get_xcorr(afft, bfft, filter)
     bins = np.arange(num_bins) * resolution
     if statistics:
-- 
2.43.0

