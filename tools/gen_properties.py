#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, pathlib
P = []
C = "src/fpfind/freqcd.c"; GO = "src/fpfind/lib/getopt.c"
TS = "src/fpfind/lib/parse_timestamps.py"; EP = "src/fpfind/lib/parse_epochs.py"
UT = "src/fpfind/lib/utils.py"; FP = "src/fpfind/fpfind.py"
TC = "src/fpfind/lib/generate_freqcd_testcase.py"; LG = "src/fpfind/lib/logging.py"
PL = "src/fpfind/fpplot.py"; CO = "src/fpfind/lib/constants.py"

def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, (id, statement)
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

# ------------------------------------------------------------------ freqcd
p("C01", "freqcd applies the configured frequency offset accurately",
  "For a time-ordered event stream and any accepted frequency offset f (in units of 2^-34, constant during the run), "
  "every event leaves freqcd with timestamp t + (t - t0)*f/2^34, where t is its input timestamp and t0 that of the first event of the stream, to within 1.5 timestamp units (of 4 ps) per block of input read so far, modulo 2^54. "
  "With offset zero the output equals the input byte for byte.",
  ["inputs", "configurations"], "all 54-bit timestamps in non-decreasing order, all |f| < 2^21, both word orders, several events over several reads",
  "The one freqcd test uses a single offset, three round timestamps and one read; it also needs a companion program that does not run here, so nothing is checked today.",
  [C], [("scaled 64-bit correction", C + ": digest events loop"), ("running reference and accumulated correction", C + ": tsref / tsoverflowcorr")],
  [("tsref", "timestamp of last corrected event of previous block", C), ("tsoverflowcorr", "correction accumulated over previous blocks", C)], ["freqcd output stream"])
p("C02", "freqcd keeps every event, in order, with its detector bits",
  "freqcd writes exactly one output event for each complete 8-byte input event, in input order, and the ten low (detector/flag) bits of every event are unchanged. "
  "Running on the legacy word order with -x gives exactly the word-swapped output of running on the normal word order.",
  ["inputs", "schedules", "configurations"], "all event words, both word orders, reads up to and including a completely full input buffer",
  "No test compares event counts, pattern bits, or the legacy order; none fills the input buffer.",
  [C], [("in-place rewriting of the event words", C + ": digest events loop"), ("write of eventnum events", C + ": write out events")], [], ["freqcd output stream"])
p("C03", "freqcd output does not depend on event-splitting reads",
  "However the operating system cuts the input stream into reads - including reads that end in the middle of an event or bring no complete event, and rounds in which no input is available - freqcd's output equals the output produced when the same complete events arrive in whole-event reads at the same rounds. "
  "Bytes of an incomplete event are neither lost, duplicated nor emitted early.",
  ["schedules", "inputs"], "all ways of cutting the byte stream of a few events into reads, interleaved with empty rounds",
  "Tests feed everything through one pipe write, so no read ever splits an event.",
  [C], [("partial event carried to the buffer start", C + ": top of main loop"), ("per-block reference update", C + ": after digest events")],
  [("inbytesread/inbytespartial", "bytes in buffer / incomplete trailing event", C)], ["freqcd output stream"])
p("C04", "freqcd honours exactly the valid frequency updates, however delivered",
  "From the frequency stream freqcd takes each newline-terminated decimal integer (up to 98 characters) of magnitude below 2^21 as the new offset, ignores every other line (malformed, empty, longer or out of range, including values that do not fit an int), and applies the most recent valid value to input read in later rounds. "
  "The result does not depend on how the frequency stream is cut into reads, and closing it leaves the last value in force.",
  ["schedules", "inputs", "histories"], "all byte contents of update lines up to a bounded length, cut at every position, interleaved with event reads",
  "The update tests are only prose in a docstring; nothing runs.",
  [C], [("line buffering of partial values", C + ": Read frequency correction values"), ("readint", C)],
  [("freqbytespartial", "size of an unterminated value kept in the buffer", C), ("fcorr", "offset in force", C)], ["freqcd output stream"])
p("C05", "freqcd accepts exactly the documented range of offsets",
  "freqcd starts with the offset given by -f iff it is an integer with magnitude below 2^21, and with -d iff the value in units of 0.1 ppb has magnitude at most 1220703, in which case the offset used is the value times 2^34*1e-10 truncated toward zero. "
  "Any other value makes it exit with an error before reading or writing any event.",
  ["inputs", "configurations"], "all int values given to -f, with and without -d, in any option order",
  "No test passes an out-of-range or decimal offset.",
  [C], [("range check after option parsing", C + ": check specified frequency correction")], [("fcorr", "offset in force", C)], ["exit status", "stderr", "output stream"])
p("C06", "freqcd output stays time-ordered and continuous across updates",
  "For non-decreasing input timestamps the output timestamps (before reduction modulo 2^54) are non-decreasing, at every block boundary and at every change of the frequency offset: a new offset only changes the rate from then on, never steps the time already accumulated.",
  ["inputs", "histories", "schedules"], "all non-decreasing event sequences of a few events in several reads with arbitrary valid offset changes between them",
  "No test changes the offset while events flow.",
  [C], [("accumulated correction carried over", C + ": tsoverflowcorr")], [("tsoverflowcorr", "correction accumulated over previous blocks", C)], ["freqcd output stream"])
p("C07", "freqcd survives roll-over of the 54-bit timestamp counter",
  "When the input timestamp counter wraps from 2^54-1 to 0 (every 20 hours) the correction continues as if the counter had not wrapped: elapsed time between consecutive events is taken modulo 2^54. "
  "An output timestamp exceeding 54 bits is reduced modulo 2^54 and leaves the detector bits untouched.",
  ["inputs", "histories"], "all event pairs with one counter wrap between or inside blocks, all accepted offsets",
  "The overflow test file contains only a docstring.",
  [C], [("timestamp difference to reference", C + ": digest events loop"), ("truncating packing", C + ": write corrected timestamp")], [("tsref", "reference timestamp", C)], ["freqcd output stream"])
p("C08", "freqcd has no memory-safety or undefined-behaviour errors",
  "For any arguments (including over-long file names and extreme numbers), any input and frequency bytes, and any way they are cut into reads, freqcd never reads or writes outside an object, never uses an uninitialised value, and never overflows signed arithmetic.",
  ["inputs", "configurations", "schedules"], "argument strings around every buffer limit, arbitrary stream contents and cuts, bounded number of rounds",
  "Tests run one ordinary input without sanitizers.",
  [C, GO], [("fixed-size buffers and bounds", C)], [], ["process state"])
p("C09", "freqcd stops cleanly on I/O faults with a correct output prefix",
  "If waiting, reading or writing fails, or a write is short, at any point, freqcd stops without processing further events, and what it has handed to the output up to then is a prefix of the output of a fault-free run on the same reads. "
  "End of input ends the run with exit status 0. A file that cannot be opened, or a buffer that cannot be allocated, ends the run with another status before any event is processed.",
  ["fault_sequences", "crash_points"], "a fault of each kind at each round of a bounded run",
  "No test injects a fault.",
  [C], [("error exits of the main loop", C)], [], ["freqcd output stream", "exit status"])
p("C10", "freqcd options mean the same in every order and grouping",
  "Options -i -o -F -f -x -d may be given in any order, flags clustered or separate, option values attached or as the next argument, and the effective settings are the same; -h prints the help and exits with status 1 without touching any stream, and parsing stops at -- or the first non-option.",
  ["inputs", "configurations"], "all argument vectors built from the options up to a bounded number of arguments and characters",
  "The only test passes a single -f.",
  [C, GO], [("getopt", GO), ("option switch", C)], [("optind/place", "scan position", GO)], ["opened files", "settings used"])

# ------------------------------------------------------------------ timestamps
p("T01", "Timestamp files decode per file specification in every format",
  "Reading a hex (a0), binary (a1, normal or legacy word order) or hex text (a2) file yields for every event exactly the 54-bit timestamp in the top bits and the 4-bit detector pattern in the low bits of its 64-bit event word, in file order. "
  "All three formats give equal results for equal events, for any number of events including a single one.",
  ["inputs", "configurations"], "all 64-bit event words, a few events per file, all formats, whole-file and streaming readers, integer and fractional output",
  "The reader tests need data files that are not in the repository; only an empty test passes.",
  [TS], [("read_a0/a1/a2 word unpacking", TS), ("sread_* word unpacking", TS)], [], ["returned arrays"])
p("T02", "Timestamp files are written per file specification",
  "Writing events (timestamp below 2^54 units of 4 ps, detector pattern below 16) produces for each event, in order, the word (timestamp << 10) + pattern, as two 8-digit hex lines low word first (a0), 8 little-endian bytes or the word-swapped legacy form (a1), or one 16-digit hex line (a2); whole-file and streaming writers produce identical files.",
  ["inputs", "configurations"], "all timestamps and patterns, a few events, all formats and input resolutions, any batching",
  "No test writes a timestamp file.",
  [TS], [("_consolidate_events", TS), ("write_* / swrite_*", TS)], [], ["written files"])
p("T03", "Write-then-read returns the same events",
  "For every format and word order, events written from timestamps in any supported resolution and read back have identical timestamps (to the full 4 ps) and detector patterns.",
  ["inputs", "configurations"], "all 54-bit timestamps and 4-bit patterns, all formats, word orders, and resolutions",
  "No test performs a round trip.",
  [TS], [("readers and writers", TS)], [], ["returned arrays"])
p("T04", "Resolution conversion is exact or floored, never rounded",
  "A timestamp of T units of 4 ps read at resolution 1 ns, 125 ps or 4 ps is returned as exactly T/256, T/8*(1/4) or T of that unit when fractional output is requested, and as the floor of that value, as an unsigned 64-bit integer, when it is not; this holds for raw timestamp files of every format.",
  ["inputs", "configurations"], "all 54-bit timestamps, three resolutions, fractional and integer output, all formats",
  "Existing type tests cannot run without data and check only dtypes.",
  [TS, CO], [("_format_timestamps", TS), ("TSRES", CO)], [], ["returned arrays"])
p("T05", "Streaming readers return the whole file, batch by batch",
  "Concatenating the batches of a streaming reader gives exactly the events of the whole-file reader for any batch size; every batch but the last has exactly the batch size, and the announced number of batches equals the number produced.",
  ["inputs", "configurations"], "files of 0 to several events, every batch size, all formats, the default batch size at its boundary",
  "No test uses a streaming reader.",
  [TS], [("sread_a0/a1/a2", TS)], [], ["yielded batches"])
p("T06", "Detector-pattern filtering selects and rewrites exactly as documented",
  "Without mask, filtering keeps precisely the events whose pattern equals the given one (or, inverted, differs from it), unchanged. With mask it keeps precisely the events sharing a bit with the pattern and returns the shared bits, or, inverted, removes the pattern's bits from every event and drops those events that lose all their bits, keeping events that had none.",
  ["inputs", "configurations"], "all 4-bit patterns of a few events, all filter patterns, both options",
  "No test calls the filter.",
  [TS], [("get_pattern_mask", TS)], [], ["returned mask and patterns", "converted file"])
p("T07", "Time filtering keeps exactly the events inside the closed interval",
  "For sorted timestamps, filtering by start and/or end time (seconds) keeps precisely the events with start <= t <= end, both bounds inclusive and each optional, in any timestamp resolution, also when no event or all events qualify.",
  ["inputs", "configurations"], "all sorted sequences of a few timestamps, all start/end positions, resolutions",
  "No test calls the filter.",
  [TS], [("get_timing_mask", TS)], [], ["returned mask", "converted file"])
p("T08", "Converting a timestamp file changes nothing but the format",
  "The parse_timestamps command converts any file between any two formats and word orders so that every event's timestamp and pattern survive bit-exactly and in order, and with filter options the output holds exactly the events the pattern filter followed by the time filter select, identically in streaming and in-memory mode.",
  ["inputs", "configurations"], "all events, all nine format pairs with both word orders, filter options, both modes",
  "No test runs the command.",
  [TS], [("main", TS), ("event_filter/inline_filter", TS)], [], ["output file"])
p("T09", "Event statistics count correctly",
  "The statistics report of parse_timestamps gives the total number of events, the number with each detector bit set, the numbers with several bits and with none, the set of patterns, first and last times and duration of exactly the selected events, the same in streaming and in-memory mode and for any batching; it is produced without failing for every file, including one with no or one event.",
  ["inputs", "configurations"], "all patterns and times of a few events, split into batches in every way, with and without filters",
  "No test prints statistics.",
  [TS], [("print_statistics", TS), ("print_statistics_stream", TS), ("print_statistics_report", TS)], [], ["printed report"])

# ------------------------------------------------------------------ epochs
p("E01", "T1 epoch files round-trip",
  "Writing events (time within the epoch in 4 ps units below 2^37, non-zero 4-bit detector) to a T1 file and reading it returns the same detectors and, with full epoch, epoch*2^37 + time for every event in order; the file is named after the epoch in hex and carries the epoch and the event count in its header.",
  ["inputs"], "all 32-bit epochs, all times and detectors, a few events, scalar or per-event detectors",
  "The limit tests use one epoch, fixed timestamps and compare only two events for inequality.",
  [EP], [("write_T1", EP), ("read_T1", EP)], [], ["file", "returned arrays"])
p("E02", "T1 timestamps agree with raw timestamps at every resolution",
  "A T1 event read without full epoch equals the raw-timestamp reading of the same 64-bit word (timestamp and pattern) at every resolution; with full epoch the epoch's upper 15 bits are added on top of the 54-bit timestamp, exactly for integer output (floored to the unit) and to within half of 125 ps for floating output.",
  ["inputs", "configurations"], "all event words and 32-bit epochs, all resolutions, both output kinds",
  "Tests check distinguishability of two values at one epoch only.",
  [EP, TS], [("read_T1 conversion", EP)], [], ["returned arrays"])
p("E03", "Epoch readers reject files inconsistent with their header",
  "A T1, T2 or T4 file whose number of events before the terminator differs from a non-zero length in the header, or a T2 or T4 file whose terminator carries non-zero base bits, is rejected with a ValueError and never returned as data, and so is a T1 file ending within an event and a T2 or T4 file ending before its terminator; consistent files are never rejected.",
  ["inputs"], "all header lengths against bounded event counts, all terminator base bits, all truncation points",
  "No test supplies an inconsistent file.",
  [EP], [("validity checks in read_T1/T2/T4", EP)], [], ["exception"])
p("E04", "T2 bit stream decodes to the encoded events",
  "For any bit width of time differences and bases allowed by the format, reading a T2 file returns exactly the bases and the running sums of the time differences (short or extended 32-bit form) that were packed most-significant-bit first into its 32-bit words, starting from the 17 low epoch bits at 2^32 units of 125 ps.",
  ["inputs", "configurations"], "all differences and bases of a few events, every time width 2..28 and base width 1..8 with their sum below 32, mixed short/extended encodings",
  "T2 tests need absent data files.",
  [EP], [("extract_bits", EP), ("read_T2", EP)], [("buffer/size", "bits not yet consumed", EP)], ["returned arrays"])
p("E05", "T2 timestamps convert correctly to every resolution",
  "T2 events (125 ps units) are returned exactly in the requested unit for fractional output, floored for integer output at 1 ns, and multiplied by 32 for integer 4 ps output, with the upper epoch bits added when the full epoch is requested; every combination of resolution and output kind works.",
  ["inputs", "configurations"], "all time differences that stay within the epoch and all epochs, all resolutions, fractional/integer, with/without full epoch",
  "T2 tests need absent data files and cover one combination.",
  [EP], [("read_T2 conversion", EP)], [], ["returned arrays"])
p("E06", "T4 bit stream decodes to the encoded indices",
  "Reading a T4 file returns exactly the bases and the running sums of (encoded index difference - 2), short or extended form, for any bit widths allowed by the format.",
  ["inputs", "configurations"], "all differences and bases of a few events, every width",
  "read_T4 is never called by a test.",
  [EP], [("extract_bits", EP), ("read_T4", EP)], [("buffer/size", "bits not yet consumed", EP)], ["returned arrays"])
p("E07", "T3 coincidences are classified and counted exactly once",
  "For every T3 file, each of the header-length detection bytes is counted either once in the coincidence matrix cell of its Alice/Bob single-bit pair, or in the garbage count of each side that is not a single bit; the ok count equals the matrix total, and the QBER is the error fraction of same- versus opposite-basis-value counts rounded to three decimals (0.5 if there are none).",
  ["inputs"], "all bytes of a bounded number of detections, all padding lengths",
  "read_T3 is never called by a test.",
  [EP], [("read_T3", EP)], [("coinc_matrix", "4x4 counts", EP)], ["returned service record"])
p("E08", "Epoch names, numbers and dates are consistent",
  "The hex name and the integer of an epoch convert back and forth without change, and the epoch computed for a date is the one whose interval (2^32 units of 125 ps) contains that date's whole second, so that the date computed for an epoch lies at that epoch's start to within a microsecond; without a date the current epoch is meant.",
  ["inputs"], "all 32-bit epochs and all whole seconds whose epoch number fits 32 bits",
  "No test converts dates or epochs.",
  [EP], [("date2epoch/epoch2date", EP), ("epoch2int/int2epoch", EP)], [], ["returned values"])
p("E09", "First common epoch and run length are found correctly",
  "Given two epoch directories, the selected epoch is the smallest one present in both and not below the requested first epoch, the reported length is the number of consecutive epochs from there present in both, and with no common epoch the result is none with length zero.",
  ["inputs", "configurations"], "all subsets of a window of epoch numbers for both directories, arbitrary base epoch, optional first epoch",
  "No test calls it.",
  [UT], [("get_first_overlapping_epoch", UT)], [], ["returned epoch and length"])
p("E10", "Reading consecutive epochs gives one continuous time series",
  "Loading n consecutive epochs after skipping k returns the events of exactly epochs first+k .. first+k+n-1 in order, in ns on one common time axis: an event's time differs from another's by their true time difference also where the 17-bit epoch counter inside the timestamps rolls over.",
  ["inputs", "histories"], "all first epochs including those next to a multiple of 2^17, bounded n and k, T1 and T2",
  "Multi-epoch tests need absent data files and no roll-over.",
  [UT, EP], [("get_timestamp", UT)], [], ["returned array"])

# ------------------------------------------------------------------ analysis
p("U01", "Slicing and normalising preserve time differences",
  "Slicing a sorted timestamp series at a start and duration returns precisely the events with start <= t < start+duration, shifted by start (by the first event if no start is given); normalising several series drops events before the common start (latest first event plus skip), shifts all series by that same start, so relative delays are kept, and never modifies the caller's arrays.",
  ["inputs", "configurations"], "all sorted series of a few timestamps, start and duration values, several series",
  "No test calls these functions.",
  [UT], [("slice_timestamps", UT), ("normalize_timestamps", UT)], [], ["returned arrays"])
p("U02", "Correlation index maps to the right signed delay",
  "A cross-correlation peak at index k of N bins of width r is reported as the pair of delays congruent to k*r modulo N*r that lie in [0, N*r) and (-N*r, 0], the one of smaller magnitude first, zero for k = 0; this holds for the single-peak, at-index and top-k forms, the top-k form lists peaks in descending height, and for even N converting the histogram to a signed axis keeps each height at its delay.",
  ["inputs"], "all N up to a bound, all peak positions and heights, bin widths",
  "No test calls these functions.",
  [UT], [("get_timing_delay_fft", UT), ("get_delay_at_index_fft", UT), ("get_top_k_delays_fft", UT), ("convert_histogram_fft", UT)], [], ["returned delays"])
p("U03", "Time binning assigns every event to exactly one bin, cyclically",
  "The histogram transformed for correlation has exactly N bins and holds every event once, in bin floor(t/r) mod N, whatever the span of the data; an empty series is rejected.",
  ["inputs"], "all timestamps of a few events, bin widths and bin counts",
  "No test calls it.",
  [UT], [("generate_fft", UT)], [], ["argument of the transform"])
p("U04", "A pure delay is recovered by the cross-correlation",
  "If the second series is the first one delayed cyclically by d bins, the correlation value at index d is at least that at every other index, so the reported delay is +d bins (second later than first positive) whenever that peak is unique and d is less than half the range.",
  ["inputs"], "all histograms on N = 4 bins with exact arithmetic, all d",
  "End-to-end tests fail at import and need absent data.",
  [UT], [("get_xcorr", UT), ("get_timing_delay_fft", UT)], [], ["correlation", "delay"])
p("U05", "Peak statistics use disjoint in-range signal and background",
  "For every histogram, window and peak position the signal region is the in-range bins within half a window (in bins, rounded up) of the peak bin, background is a contiguous in-range stretch adjoining it on either side and disjoint from it, and the significance is (max - mean background)/standard deviation of background rounded to 3 decimals, or zero when the deviation is zero. The further statistics follow their definitions (total = signal counts above the mean background, raw significance over all bins, significance against background grouped in signal-sized bins, peak to background ratio) and have no value, instead of failing, where there is no background to compare with.",
  ["inputs", "configurations"], "all peak positions for bounded histogram lengths and windows",
  "No test calls it.",
  [UT], [("get_statistics", UT), ("PeakStatistics", UT)], [], ["returned statistics"])
p("U06", "A correlation histogram counts the event pairs at each delay",
  "The histogram of two series with N bins of width r holds, at bin k, the number of pairs of events whose time difference (second minus first) falls k bins apart modulo N, taken over exactly the events from the first time common to both (plus the given skip) for the given number of wraps of N r; a frequency correction stretches the second series from that start; the bin axis is k r, the event counts and the statistics are those of the events used, and the series given are not modified. A window without events is refused.",
  ["inputs", "configurations"], "all sorted series of a few events, several bin widths, wraps, skips and corrections",
  "No test calls it.",
  [UT], [("histogram_fft", UT), ("generate_fft", UT), ("get_xcorr", UT), ("slice_timestamps", UT)], [], ["returned histogram, axis and counts"])
p("F01", "Iterative refinement composes corrections exactly",
  "The time and frequency offset returned by the refinement equals the composition of all per-iteration corrections: applying the affine map t -> (t - dt)/(1 + df) to the original target series gives the same series as applying the corrections found in each iteration one after another. Every iteration correlates windows of equal duration, an early one at time 0 and a late one at the separation, of the reference and of the target corrected so far; the early delay is its time correction, the delay difference over the separation its frequency correction. A later iteration whose delays or frequency exceed ten times the accumulated offsets (at least 1 ns and 1e-9) is discarded as spurious and ends the search, as does a separation too short for a smaller window; a window is never longer than the data it is taken from.",
  ["inputs", "histories"], "all sequences of peak positions for up to a bounded number of refinement iterations",
  "End-to-end tests fail at import.",
  [FP], [("time_freq recursive relations", FP)], [("dt, f", "accumulated correction", FP)], ["returned (dt, df)"])
p("F02", "fpfind never returns an estimate outside its guard rails",
  "When the search returns normally the magnitude of the frequency offset is below 2^-13, the first coarse delay was at most 100 ms with a peak above the significance threshold found at a resolution of at most 10 us (unless the given initial one is coarser), and the bin width used never went below the target resolution (a separation too short for refinement ends the search with the estimate found so far); otherwise it fails with a peak-finding error.",
  ["inputs", "histories", "configurations"], "all sequences of peak positions and significances for a bounded number of iterations",
  "End-to-end tests fail at import.",
  [FP, CO], [("guards in time_freq", FP)], [("resolution", "current bin width", FP)], ["returned value or exception"])
p("F03", "Precompensation scan returns the correct combined estimate",
  "Scanning a list of frequency precompensations tries them in order and returns, for the first one at which a peak is found, the composition of precompensation and found correction, so that t -> (t - dt)/(1 + df) aligns the original target series; a full scan tries all of them and still returns a found estimate; if none succeeds it fails with an error.",
  ["inputs", "histories"], "all lists up to a bounded length with arbitrary success/failure pattern and arbitrary found offsets",
  "End-to-end tests fail at import.",
  [FP], [("fpfind loop", FP)], [], ["returned (dt, df)"])
p("F04", "Precompensation lists cover the requested range evenly",
  "The list of precompensations starts at the start value, contains start + k*step for k = 0, +1, -1, +2, -2, ... in that order with |k*step| <= stop (or, ordered, k = 0, 1, 2, ... up to stop in increasing order), has no duplicates or gaps, and is the single value 0 when the step is zero.",
  ["inputs", "configurations"], "all start/stop/step values with a bounded number of steps",
  "No test calls it.",
  [FP], [("generate_precompensations", FP)], [], ["returned list"])
p("F05", "Output flags transform the reported offsets as documented",
  "For every output verbosity value the printed line is tab-separated frequency then time: bit 0 reports the offsets of the swapped roles, i.e. the inverse affine map, bit 1 prints the frequency as the nearest integer in units of 2^-34, bit 2 drops the time, bit 3 prints the time in units of 1/8 ns; the time is rounded to the nearest integer.",
  ["inputs", "configurations"], "all found offsets within the guard rails and all 16 flag values",
  "No test runs the command.",
  [FP], [("main output section", FP)], [], ["stdout"])
p("F06", "fpfind reads enough data from the right source",
  "With epoch directories the command loads the reference as T2 and the target as T1, starting at the first common epoch after the skipped ones, reading the whole number of epochs that covers (separation + 1) * bins * resolution * wraps plus one spare epoch, and with timestamp files the reference and target a1 files in the selected word order; both are normalised to a common start after the requested skip before the search starts with the given parameters.",
  ["inputs", "configurations"], "all option values within stated ranges",
  "No test runs the command.",
  [FP], [("main", FP)], [], ["calls into readers and search"])
p("F07", "A delayed copy of the reference is found with its delay",
  "For a target series that is the reference shifted by a constant delay within half the correlation range, the whole search (slicing, binning, correlation, peak finding, refinement) returns no frequency offset and that delay, resolved to the target bin width, whenever the correlation has a background to compare the peak with.",
  ["inputs", "configurations"], "all delays on a fine grid, several bin counts, bin widths, separations and event patterns; nothing replaced by a stand-in",
  "End-to-end tests fail at import and need absent data.",
  [FP, UT], [("fpfind", FP), ("time_freq", FP), ("get_xcorr", UT), ("get_statistics", UT)], [], ["returned (dt, df)"])
p("G01", "Test-event generator encodes and decodes faithfully",
  "The generator encodes each timestamp modulo 2^54 with its detector bits as one event in the requested word order, prints for an existing event file the timestamps it contains, and never alters the file it reads.",
  ["inputs", "configurations"], "all non-negative timestamps, detectors, both word orders, command-line, file and stdin modes",
  "Only used indirectly by a test that fails here.",
  [TC], [("get_event", TC), ("main", TC)], [], ["stdout", "files"])
p("L01", "Log details never alter or lose the message",
  "Attaching details to a log record yields the original formatted message followed by every detail in order, one line each and aligned in human-readable mode, the details given by the caller are not modified, a logger writes each message of sufficient level exactly once to standard error and, if set, once to the log file, with the caller's location where it is overridden, and verbosity counts map monotonically to warning, info and debug.",
  ["inputs"], "bounded messages and detail lists with arbitrary characters",
  "No test covers logging.",
  [LG], [("LoggingOverrideFormatter.format", LG), ("verbosity2level", LG)], [], ["log text"])
p("X01", "fpplot applies the compensation that fpfind reports",
  "The target series plotted by fpplot for time dt (ns) and frequency df (ppm) is (t - dt)/(1 + df*1e-6), the map under which fpfind's reported offsets align both series, applied to series normalised as in fpfind, read from the epoch directories or event files that were asked for starting at the requested epoch.",
  ["inputs"], "all series of a few events, all dt and df",
  "fpplot is never imported by a test.",
  [PL], [("plotter", PL), ("main", PL)], [], ["arguments of the histogram"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P), "properties")
