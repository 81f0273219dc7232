NA = {}
SCHED = ('Real classes compiled from /repo run under a controlled scheduler (random, PCT and preemption-bounded DFS schedules, spurious wake-ups, '
         'optional switches at shared memory accesses); every distinct event log is validated by TLC against the contract. ')
c('C01', MC, 'TLA+ model of the stage checked exhaustively with TLC; traces of the real class validated against the same contract',
  SCHED + 'The lock/condvar-grain model StageImpl is exhaustive for the listed constants. Assumes sequentially consistent memory.')
c('C02', MC, 'TLA+ model of the pool ring checked exhaustively with TLC; traces of the real class validated against the same contract',
  SCHED + 'PoolImpl is exhaustive for up to 4 workers / 7 items (quick). Assumes sequentially consistent memory.')
c('C03', MC, 'TLC deadlock and liveness checking of stage, pool and chain models; controlled-scheduler stall detection on the real classes',
  SCHED + 'Liveness is proved on the bounded models under weak fairness; on the code a stall is a state in which no thread can run.')
c('C04', MC, 'TLA+ models with failing callbacks checked with TLC; failure injected at every item index in the real classes, traces validated',
  SCHED + 'Termination of the process counts as a reported failure.')
c('C05', MC, 'Recorded runs of the real DiskSort (controlled scheduler and free threads) validated by TLC against the DiskSort contract module',
  'Random configurations of key distribution, buckets, chunk sizes, writers and threads plus all preemption-bounded schedules of two writers into one bucket; every output compared with the entries added inside TLC.')
c('C06', MC, 'Histories generated from the TLA+ DiskSort contract by TLC simulation, replayed into the real DiskSort; call results and directory listings validated by TLC',
  'Random walks of up to 30 calls over add/cache/flush/finish/read/keep/close/destroy/reopen, including late writes and out-of-range keys.')
c('C07', MC, 'Recorded runs of the real DiskTable (controlled scheduler and free threads) validated by TLC against the DiskTable contract module',
  'All block boundaries (multiple, one more, one less) for several block sizes, record types, write chunks and reader counts.')
c('C08', MC, 'Field vectors enumerated by TLC from the TLA+ record model, executed on the real codecs of both builds, results judged by TLC',
  'All single-bit, single-hole and corner combinations of every field of every record type, byte patterns and pseudo random values (thorough: all pairs of bits in different fields), neighbours and memory poisoned.')
c('C09', MC, 'Executable TLA+ definition of ChaCha8, BLAKE3, f1..f7; evaluations of the real functions judged by TLC',
  'Whole 64-leaf trees for every k from 16 to 34 (both builds) and complete first tables for k=16..18; no proof for all inputs.')
c('C10', MC, 'TLA+ matching rule; recorded runs of the real forward propagation on crafted and complete tables judged by TLC',
  'Crafted left tables (gaps, duplicates, extreme buckets, arbitrary block cuts) under controlled schedules and complete k=16/17 tables bucket by bucket.')
c('C11', MC, 'TLA+ specification of back propagation (reachability, ranks); recorded runs of the real phase 2 on chosen tables judged by TLC',
  'Random and crafted table sets (dead entries, shared parents, chunk boundaries), several thread counts; complete k=16 phase-1 output in thorough runs.')
c('C12', MC, 'TLA+ model of the merge protocol (feeder, merge workers, shared block list) checked exhaustively with TLC incl. termination; recorded runs of the real stage judged by TLC',
  SCHED + 'Left/right tables, block cuts (incl. empty blocks) and thread counts are sampled; line points recomputed in TLA+ multi-limb arithmetic.')
c('C13', MC, 'TLA+ decoder of the published park format (incl. entropy code); parks written by the real stage decoded and compared by TLC',
  SCHED + 'Tables of 0..5000 line points around park boundaries, all six tables, k=16..34 (both builds), several thread/bucket/chunk settings; refusals required for gaps that cannot be represented.')
c('C14', MC, 'TLA+ construction of the published entropy code and its decoder; outputs of the real compressor and park writer decoded by TLC',
  'All tables, lengths 0..9999, typical, constant, extreme and incompressible sequences and first-use races, one process per case with AddressSanitizer.')
c('C15', MC, 'TLA+ decoder of the checkpoint tables; final sections written by the real phase 4 decoded and compared by TLC',
  SCHED + 'Around park and checkpoint boundaries at full scale (up to 20001 entries) and, in a build with scaled-down intervals, around second-level checkpoints; refusals required for gaps without code.')
c('C16', MC, 'TLA+ definition of a valid complete plot (format, proofs, matching); plots of the real four phases read back by an independent reader and judged by TLC',
  'Complete plots for k=16..18 (thorough: up to 20), both builds, 1..32 threads, 2..256 buckets, several buffer sizes: every stored pointer followed and every final value re-proved by an independent reader whose decoding, proofs and reference values TLC re-derives in samples; the list of final values is compared completely in TLC.')
c('C17', MC, 'TLA+ definition of header and section layout; headers and plots written by the real code judged byte for byte by TLC',
  'Memo lengths 0..65535 for the header writer, nine to forty memo lengths for complete plots; pointers and file size compared with the section sizes.')
c('C18', MC, 'TLA+ specification of what may be on disk during a move (Move) and model of the algorithm (MoveImpl) checked exhaustively with TLC; the real move killed at every system call and with every call failing, observations validated by TLC as behaviours of Move',
  'Every system call of the real move as crash point and as fault point (several error codes, once or persistent), full disk at several sizes, same and other file system, old plots and left-overs at the destination; sizes around multiples of the copy buffer. A crash is the end of the process, not of the machine.')
c('C19', MC, 'TLA+ specification of publishing a plot (Publish) and model of the last phases as file operations (PublishImpl) checked exhaustively with TLC; the real four phases run with faults and kills at their system calls (seccomp user notification), each observed outcome validated by TLC as a behaviour of Publish',
  'k = 16 plots; every operation of the main thread and samples of the other threads on the plot file, samples on temporary files, disks and files that become full; error once or persistent. A crash is the end of the process, not of the machine. A plot is judged by an independent reader of the format.')
c('C20', MC, 'TLA+ specification of file ownership (Files) and model of the life of all temporary files (FilesImpl) checked with TLC; file operations of real runs, intercepted at the system call interface, validated by TLC as behaviours of Files',
  'k = 16 plots and batches of the real main program (with stand-ins for the key libraries): all partitions of the three directories, 1..8 threads, 2..32 buckets, two runs side by side, failing and killed runs, decoy files of every kind the plotter makes under other plots\' names.')
c('C21', MC, 'TLA+ specification of a batch (Batch) and model of main loop, copy thread and signal flag (BatchImpl) checked with TLC incl. refinement and liveness; runs of the real main program, with signals, failing and slow moves placed at chosen system calls, validated by TLC as behaviours of Batch',
  'The real src/chia_plot.cpp with stand-ins for the key libraries and shortened sleeps, k = 16; counts 0..3 and infinite, all directory options, signals and move failures at many points. The decision for the next plot is not observable: a request arriving between it and the first file is not judged.')
c('C22', MC, 'TLA+ specification of valid option assignments (Options); assignments enumerated by TLC, run through the real main program and the outcomes judged by TLC',
  'All assignments differing from three valid ones in one option and a sample of those differing in two (thorough: thousands), both builds; numbers around all limits, malformed keys, addresses, ids and directories; complete k = 16/17 runs for some valid ones. Key libraries are stand-ins.')
c('C23', MC, 'TLA+ specification of how id and memo follow from keys, contract address, port and secret (executable SHA-256 and derivation paths); plots of the real main program judged by TLC',
  'Runs of the real src/chia_plot.cpp with a toy key library (group of integers modulo a prime): the structure of the derivation is judged, not the cryptography; ports, networks, pool and contract plots, unique ids, given ids, batches; secrets compared with the random bytes requested.')
c('C24', MC, 'TLA+ specification of the documented space (Space) and model of all data on disk stage by stage (SpaceImpl) checked with TLC; sizes of all files of real runs, taken at their system calls, validated by TLC against Space',
  'SpaceImpl exhaustive over the interleavings of reading and writing with the sizes of k = 32; real runs with k = 17 and 18, three layouts of directories, 1..8 threads, 16..64 buckets, several buffer sizes. The plot is weighted as at k = 32. Copies of earlier plots still under way in a batch are not counted.')
c('C25', MC, 'TLA+ specification of open files (Space) and model of the handles per stage (SpaceImpl) checked with TLC for 1..1024 threads and 2^4..2^16 buckets; opens and closes of real runs validated by TLC against Space',
  'Real runs with k = 16, 1..64 threads, 2..64 buckets and batches of the main program with up to three plots; handles counted at the system call interface for files in the working, stage and destination directories.')
