#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that long texts stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

TH, TP, DS, DT = "include/chia/Thread.h", "include/chia/ThreadPool.h", "include/chia/DiskSort.hpp", "include/chia/DiskTable.h"
P1, P2, P3, P4 = ["include/chia/phase%d.hpp" % i for i in (1, 2, 3, 4)]

prop("C01", "A pipeline stage processes every item exactly once, in hand-over order",
  "Every item handed to a single-threaded pipeline stage is processed exactly once, unchanged, never concurrently with another item of that stage, and in the order in which the hand-overs happened (also per producer when several threads hand over). A hand-over returns only when every item accepted before it has been processed completely (so a stage never buffers more than one item behind the one in progress). Waiting for the stage, or closing it, returns only after every item handed over before has been processed completely.",
  ["schedules", "histories"], "every interleaving of any number of producers, the worker and waiters; every sequence of hand-overs, waits and close",
  "test_disk_sort drives the stage with one free-running OS schedule and never looks at order or back-pressure of the stage itself; no test varies the schedule",
  [TH], [("one-slot mailbox with is_avail/is_busy/do_run and one condition variable", TH + ": Thread::take, Thread::wait, Thread::loop")],
  ["calls/returns of take, wait, close", "begin/end of the processing callback"],
  [("input slot", "item accepted but not started", TH), ("is_busy", "an item is being processed", TH)])
prop("C02", "A worker pool delivers results exactly once and in submission order",
  "For any number of workers and any timing, each item submitted to a worker pool is processed by exactly one worker, and its result is passed downstream exactly once, one result at a time, strictly in submission order. Per-worker local state is never used by two items at the same time. Closing the pool returns only after every submitted item has been processed and its result has been delivered.",
  ["schedules", "configurations"], "every schedule, every pool size >= 1, any item count, any distribution of processing times, any downstream consumer",
  "the tests run one OS schedule with 4 threads, where a hand-off reordering needs a particular preemption",
  [TP, TH], [("ring of per-thread job numbers: a worker delivers only after its predecessor's job number passed", TP + ": ThreadPool::wrapper, ThreadPool::take")],
  ["submission order", "processing callback with its local state", "calls into the downstream consumer", "return of close/wait"],
  [("job", "number of the job a worker currently owns (max = idle)", TP)])
prop("C03", "Pipelines never stall: every hand-over, wait and close returns",
  "For every schedule, in every chain of stages and worker pools in which the processing callbacks themselves finish, each hand-over, each wait and each close eventually returns: there is no lost wake-up and no deadlock, whatever spurious wake-ups the system delivers. After close has returned, the worker threads have terminated.",
  ["schedules", "configurations"], "every schedule (including spurious wake-ups), every chain of stages/pools and every number of workers and items, including zero items",
  "a lost wake-up shows up only in particular preemptions; the tests sample one free-running schedule",
  [TH, TP, DS], [("notify_all after every state change and re-checked wait predicates", TH), ("predecessor signal in the pool ring", TP), ("close order read pool -> sort thread -> sort pool", DS + ": DiskSort::read")],
  ["termination of every API call under a controlled scheduler", "threads still alive after close"])
prop("C04", "A failing worker is always reported and never hangs or passes for success",
  "When the processing of an item throws inside a stage or in any worker of a pool, at any position, the pipeline fails: a following wait or close throws (or the process is terminated), it never returns as if all items had been processed. The failure never makes a hand-over, wait or close block forever, and no result of an item after the failed one is delivered out of order in its place as part of a run that reports success.",
  ["schedules", "fault_sequences"], "every failing item index, every pool size, every schedule and every moment of failure relative to later submissions and to close",
  "no test makes a worker throw",
  [TH, TP], [("is_fail/ex_what recorded by the worker loop and rethrown by wait()", TH + ": Thread::loop, Thread::wait"), ("order waiting on the predecessor", TP + ": ThreadPool::wrapper")],
  ["outcome of wait/close", "process termination", "downstream deliveries"])
prop("C05", "Disk sort returns exactly the added entries, in key order, with true offsets",
  "Reading a disk sort after it was finished yields every entry that was added, exactly once and bit-identical, in non-decreasing key order over the whole output, and each delivered block carries the number of entries delivered before it. This holds for every key distribution, bucket count, buffer size, number of concurrent writers and number of reading and sorting threads.",
  ["inputs", "schedules", "configurations"], "every multiset of entries, every split over writers, every bucket/thread/buffer configuration and schedule",
  "test_disk_sort uses one uniform random input, a single writer through the built-in cache, one key type, one configuration and never checks offsets",
  [DS, "include/chia/DiskSort.h", "include/chia/buffer.h"], [("two-level radix split on the key's top bits, per-bucket file, in-memory sort per block", DS + ": WriteCache::add, read_bucket, read"), ("per-bucket mutex", DS + ": bucket_t::write"), ("ordered pools", TP)],
  ["entries added", "blocks and offsets received by the consumer"])
prop("C06", "Disk sort life cycle: append, finish, read; temp files owned and cleaned up",
  "A disk sort accepts entries only until it is finished; a later write is refused with an error and a key outside the declared key range is refused, never silently misplaced. Its bucket files exist until the data has been read and are removed once read and at the latest when the sort is closed or destroyed, unless keeping was requested, in which case they survive with their contents, can be read again and can be reopened read-only with the same result. It never touches a file that is not one of its own buckets.",
  ["histories", "configurations"], "every sequence of add, write-cache creation/flush/destruction, finish, read, keep on/off, close, reopen",
  "the tests run exactly one history (add*, finish, read, destroy) and look at no file",
  [DS, "include/chia/DiskSort.h"], [("is_finished and bucket index guard", DS + ": DiskSort::write, WriteCache::add"), ("keep_files", DS + ": read_bucket, close")],
  ["directory listing and file contents after each call", "exceptions"])
prop("C07", "A disk table returns exactly what was written, in order, with true positions",
  "Reading a disk table yields every entry written to it, exactly once, bit-identical and in writing order, and each block is labelled with the position of its first entry. This holds for every number of entries, including multiples of the buffer and block size and one more or less, every block size and every number of reader threads, and the table's reported size equals the number of entries written once it is flushed or closed.",
  ["inputs", "schedules", "configurations"], "every entry count, buffer/block size, record type, reader count and schedule",
  "no test executes the disk table at all (phases 2-4 are only compiled)",
  [DT, "include/chia/buffer.h"], [("buffered append, parallel positioned reads through an ordered pool", DT + ": write, flush, read, read_block")],
  ["entries written", "blocks received by the consumer", "get_info()"])
prop("C08", "Temporary record encodings are lossless for all in-range values",
  "Every record type the plotter stores in temporary files reads back all of its fields exactly as written, for every combination of field values inside the documented bit widths, in the standard (k<=32) and in the large (k<=34) build. Encoding and decoding touch exactly the record's declared number of bytes, so neighbouring records are unaffected, and decoding does not depend on what was in memory before.",
  ["inputs", "configurations"], "all field values within the documented widths, both builds, all record types",
  "only one record type is used by a running test, with small values, and only in the k<=32 build",
  ["include/chia/phase1.h", "include/chia/phase2.h", "include/chia/phase3.h", "include/chia/entries.h"], [("hand-packed read()/write() pairs", "include/chia/phase1.h, phase2.h, phase3.h")],
  ["fields before and after a write/read through a guarded buffer"])
prop("C09", "Table functions equal the Chia proof-of-space definition",
  "For every plot id, k and input, the first-table function and the functions of tables 2 to 7 computed by the plotter (output value and carried metadata) are bit-for-bit those of the Chia proof-of-space definition (ChaCha8 keystream and BLAKE3). In the first table every x in [0, 2^k) occurs exactly once.",
  ["inputs", "configurations"], "every id, every k, every table, all left/right metadata",
  "phase 1 is not even compiled by the build, and check_phase_1 needs a k=32 plot",
  [P1, "lib/chacha8.c", "include/chia/bits.hpp", "include/chia/util.hpp"], [("keystream slicing", P1 + ": F1Calculator::compute_block, compute_f1"), ("bit packing and hashing", P1 + ": FxCalculator::evaluate, bits.hpp write_bits/append_bits/slice_bits")],
  ["entries produced for given x / left and right entries"])
prop("C10", "Forward propagation finds exactly all matches and points back at them",
  "For every sorted left table, the right table contains one entry for every matching pair of left entries as defined by the Chia matching rule, and nothing else, whatever the number of threads and the way the table is cut into blocks (for tables as plotting produces them: parents less than 1024 positions apart, and no more matches per pair of adjacent groups than the group size 15113). Each right entry's position and offset denote exactly its left and right parent in the table that is stored on disk.",
  ["inputs", "schedules", "configurations"], "every distribution of left values over groups (empty groups, gaps, duplicates, last group, group straddling blocks), every thread/bucket configuration and schedule",
  "phase 1 is not compiled or run by the tests",
  [P1], [("group slicing across blocks and the final pair after the loop", P1 + ": compute_matches"), ("target table lookup", P1 + ": FxMatcher::find_matches")],
  ["left table file", "right entries (position, offset, value)"])
prop("C11", "Back propagation keeps exactly the reachable entries and rewires them correctly",
  "After back propagation each table holds exactly those entries from which a final-table entry is reachable, every final-table entry is kept, and every kept entry still refers to the same two parents, now addressed by their rank among the kept entries of the table below. Sort keys number the kept entries of a table consecutively in their original order, for any number of threads.",
  ["inputs", "schedules", "configurations"], "all table contents and sizes (across machine-word, index and block boundaries), thread counts, schedules",
  "phase 2 is compiled but never executed by the tests",
  [P2, "include/chia/bitfield.hpp", "include/chia/bitfield_index.hpp"], [("mark pass over a shared bitfield", P2 + ": compute_table"), ("rank lookup", "include/chia/bitfield_index.hpp"), ("ordered remap pool + counting thread", P2)],
  ["input tables", "output sort contents, table 7 file, bitfield of table 1"])
prop("C12", "Line-point merge is correct and finishes under every schedule",
  "When back references are converted to line points, every entry of the right table yields exactly one line point built from the new positions of its two parents, paired with that entry's own sort key, and nothing else is emitted. For every schedule of the reader, merge and writer threads, every block partition and thread count the conversion finishes without a spurious failure.",
  ["schedules", "inputs", "configurations"], "every interleaving of producers and mergers, every partition of both tables into blocks, every thread count",
  "phase 3 is compiled but never executed by the tests; the failing windows are a few instructions wide",
  [P3, "include/chia/encoding.hpp"], [("shared list of position buffers with copy counters and end flags", P3 + ": compute_stage1"), ("triangular pairing", "include/chia/encoding.hpp: SquareToLinePoint")],
  ["left positions, right entries", "line points and keys read back from the output sort"])
prop("C13", "Table parks decode to exactly the sorted line points of the table",
  "For every table, decoding the parks in the plot file with the published format yields exactly the table's line points in non-decreasing order, all parks full except the last, each park starting at its fixed-size slot. The position handed on to the next table for an entry is the index of that entry's line point in this sequence, and the next table's start follows the last park.",
  ["inputs", "schedules", "configurations"], "every multiset of line points a plot can contain, every k, table, thread count and schedule; sizes around park boundaries",
  "phase 3 is never executed by the tests",
  [P3, "include/chia/encoding.hpp", "include/chia/bits.hpp"], [("slicing into parks by absolute index", P3 + ": compute_stage2"), ("park layout", P3 + ": WritePark, CalculateParkSize")],
  ["line points put in", "plot file bytes", "new-position sort contents", "returned pointer"])
prop("C14", "Delta compression is lossless",
  "Every sequence of small deltas that the compressor accepts is recovered exactly by decoding the produced bytes with the published entropy code for that table, using the stored size and compressed/uncompressed flag. A sequence that cannot be represented, or does not fit its slot, is refused with an error instead of being stored wrongly.",
  ["inputs", "configurations"], "all delta sequences up to a park or checkpoint length, all tables and both delta codes, concurrent first use",
  "the FSE fuzzers test the generic library with other tables; the plotter's distributions, raw fallback and short inputs are never exercised",
  ["include/chia/encoding.hpp", P3, P4, "lib/FSE/lib/fse_compress.c", "lib/FSE/lib/fse_decompress.c"], [("fixed distribution per table", "include/chia/encoding.hpp: CreateNormalizedCount"), ("table cache", "include/chia/encoding.hpp: TMemoCache, ANSEncodeDeltas"), ("raw fallback", P3 + ": WritePark")],
  ["deltas in, bytes out, decoded deltas"])
prop("C15", "Checkpoint tables decode to exactly the sorted final values",
  "Decoding the final section of the plot (positions, first- and second-level checkpoints and delta parks) with the published format yields, in order, every final-table value and its position, and every checkpoint holds the value at its interval boundary. Section boundaries and the reported plot size agree with the header pointers, for any number of entries, including around park and checkpoint boundaries, and any thread count or schedule.",
  ["inputs", "schedules", "configurations"], "every sorted list of values/positions a plot can contain, every k, entry counts around all boundaries, thread counts, schedules",
  "phase 4 is never executed by the tests",
  [P4], [("cutting by absolute index into P7 parks, C1/C3 intervals and C2 entries", P4 + ": compute")],
  ["values/positions put in", "plot file bytes", "returned size"])
prop("C16", "A finished plot is a valid, complete proof-of-space plot for any configuration",
  "For every plot id, key memo, number of threads and number of buckets, the finished plot answers every final value it lists with a valid Chia proof of space, reconstructed by following the stored tables. It lists exactly the final values that the proof-of-space definition yields for that id and k, with their multiplicity, so the result does not depend on threads, buckets, buffer sizes or timing.",
  ["inputs", "configurations", "schedules"], "all ids, k, thread/bucket/buffer settings and schedules",
  "no test creates a plot",
  [P1, P2, P3, P4, DS, DT, TH, TP], [("the four phases chained", "src/chia_plot.cpp: create_plot")],
  ["finished plot file"])
prop("C17", "The plot header identifies the plot and delimits its tables",
  "The plot file starts with the published magic, the plot id, k, the format description and the memo exactly as given, for every memo length, followed by ten pointers. The pointers are the absolute start offsets of tables 1 to 7 and of the three checkpoint tables, in increasing order and consistent with the section sizes, and nothing written later alters the header fields or any other section.",
  ["inputs", "configurations"], "every id, k, memo (including empty and long) and table sizes",
  "no test writes a header and reads it back",
  [P3, P4], [("header layout", P3 + ": WriteHeader"), ("pointer fix-up", P3 + ": compute; " + P4 + ": compute")],
  ["plot file bytes"])
prop("C18", "Moving a finished plot never loses it or exposes a partial one",
  "At every moment of moving or copying a finished plot to its destination, including a crash of the process at any point and an error of any file operation, at least one complete copy of the plot exists on disk, and the destination's final name never denotes incomplete data. The move reports success only if the complete plot is at the destination under its final name; any failure is reported as an error, and the source is removed only after the destination holds the complete data.",
  ["crash_points", "fault_sequences", "configurations"], "a crash before/after every file operation, failure of every file operation, same and different file systems, every file size",
  "test_copy covers one fault-free rename on one file system",
  ["include/chia/copy.h"], [("copy to a .tmp name, then rename", "include/chia/copy.h: final_copy, copy_file")],
  ["directory contents and file contents after each file operation", "return value or exception"])
prop("C19", "A plot gets its final name only when complete, even under I/O errors",
  "While a plot is being created its data lives under a temporary name; the final plot name appears only after every byte of the plot has been written and accepted by the operating system. If any read, write, flush, open, close or rename fails during plotting, the plotter either still produces the correct complete plot or fails; it never reports success with, or leaves under the final name, a damaged or missing plot.",
  ["fault_sequences", "crash_points"], "every file operation of a plotting run failing once or persistently (no space, I/O error), a crash at any point",
  "no test injects a fault or runs a plot",
  [P1, P2, P3, P4, DS, DT, "include/chia/util.hpp"], [("plot.tmp then rename", P4 + ": compute"), ("checked writes", "include/chia/util.hpp: fwrite_ex; DiskSort/DiskTable")],
  ["exit status, final file name and contents under injected faults"])
prop("C20", "Plotting leaves nothing behind but the plot and touches no other files",
  "After a successful run the only new file in any of the working, stage and destination directories is the finished plot; every temporary file created on the way has been removed. Files that do not belong to this plot, including temporary files and plots of other runs in the same directories, are never modified or removed.",
  ["configurations", "histories"], "every choice of directories (same/different), threads, buckets, and pre-existing files",
  "no test runs a plot or inspects directories",
  [P1, P2, P3, P4, DS], [("removal of each table after its last use", P2 + ", " + P3), ("bucket removal", DS)],
  ["file-system operations and directory listings of a run"])
prop("C21", "A batch run makes the requested plots, stops gracefully and waits for copies",
  "A batch creates exactly the requested number of plots (unbounded if infinite was asked for) one after another. When more than one plot was asked for, a single interrupt or terminate request lets the plot in progress and all pending moves finish and starts no further plot; the process exits successfully only after every finished plot has reached its destination, where a failed move is retried until it succeeds. Plots are created in the stage or destination directory as the options say, and temporary directories alternate when asked to.",
  ["histories", "schedules", "fault_sequences", "configurations"], "every count, every moment of the interrupt, slow/failing moves, every combination of directory options",
  "the main program is not compiled by the build",
  ["src/chia_plot.cpp", TH, "include/chia/copy.h"], [("gracefully_exit flag checked between plots", "src/chia_plot.cpp: main"), ("copy thread with retry and close() at the end", "src/chia_plot.cpp: main")],
  ["plots started/finished/moved, exit status, signals"])
prop("C22", "Invalid options are refused before anything is plotted",
  "The program refuses to start plotting, with a non-zero exit status and without leaving any file behind, if k, thread counts, the thread multiplier or bucket counts are out of range, keys, contract address or plot id have the wrong form, both or neither of pool key and contract are given, a directory is missing its trailing separator or is not writable, or mutually exclusive options are combined. With valid options - any number of buckets that is within the documented range included - it plots with exactly the given k, id, keys and directories, and the name of the plot file states its k and id.",
  ["inputs", "configurations"], "every combination of option values",
  "the main program is not compiled by the build",
  ["src/chia_plot.cpp", "include/cxxopts.hpp", "include/chia/util.hpp"], [("range and form checks", "src/chia_plot.cpp: main")],
  ["exit status, files, header of the produced plot"])
prop("C23", "Plot id and memo bind the plot to the farmer's and pool's keys",
  "For every farmer key and pool key or contract address, the plot's memo is the pool key (or contract puzzle hash), the farmer key and the fresh master secret, in this order, and the plot id is the hash of the pool key (or puzzle hash) and the plot public key derived along the fixed path from that same master secret and the farmer key, with the taproot addition in the contract case and the extra uniqueness step when asked for. Each plot of a batch uses a fresh master secret.",
  ["inputs", "configurations"], "all keys, contracts, ports, unique on/off",
  "the main program is not compiled by the build",
  ["src/chia_plot.cpp"], [("key derivation and memo", "src/chia_plot.cpp: create_plot")],
  ["header of the produced plot, calls into the key library"])
prop("C24", "Plotting stays within the documented disk space and write split",
  "Making one plot with the standard build never takes more disk space than documented: scaled by 2^(k-32), at most 220 GiB in the first working directory (with the growing plot, if it is made there), at most 110 GiB in the second and less than 256 GiB in both together; the first directory takes about a quarter (no more than 30 %) of the bytes written. So temporary data is removed as soon as it has been consumed (a sort bucket by bucket while it is read, a table when its stage ends) and each kind of data lives in the directory meant for it. This holds for any id, k, thread count and for the default or a comparable number of buckets.",
  ["histories", "schedules", "configurations"], "every moment of making a plot, every id, k, thread count, buffer size and layout of directories",
  "the tests look at results after a phase, never at what is on disk while it runs",
  [DS, P1, P2, P3, "README.md"], [("buckets removed after reading", DS + ": DiskSort::read_bucket"), ("tables removed after their stage", P2 + ": compute, " + P3 + ": compute"), ("prefix and prefix_2", P1 + ": compute, " + P2 + ": compute")],
  ["sizes of all files in the working directories over time"],
  [("live data", "tables, sorts and plot parts on disk", "spec/SpaceImpl.tla")])
prop("C25", "Never more open files than made sure of, and all are closed again",
  "For every number of threads and buckets, making a plot never holds more files open at once than the program makes sure of before it starts: the larger number of buckets plus twice the number of threads plus 32. When a plot is finished every file opened for it has been closed, so a batch of any length cannot run out of file handles.",
  ["histories", "schedules", "configurations"], "every moment of every run, every number of threads, buckets and plots in a batch",
  "the tests run one small configuration far from the limit and one plot only",
  [DS, DT, P3, P4, "src/chia_plot.cpp"], [("start check", "src/chia_plot.cpp: num_files_max"), ("buckets open while written, one bucket per reader while read", DS + ": bucket_t::open/close, finish, read_bucket"), ("one handle per reading thread", DT + ": DiskTable::read")],
  ["open and close of files below the working, stage and destination directories"],
  [("open files", "handles held at a moment", "spec/Space.tla")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P: assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
