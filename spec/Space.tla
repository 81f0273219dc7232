-------------------------------- MODULE Space --------------------------------
(***************************************************************************)
(* What a run of the plotter takes from the system while it makes one      *)
(* plot: bytes in the working directories and open files.                  *)
(* Bytes are counted in thousandths of a byte for each of the 2^k entries  *)
(* of a table, so the documented need for k = 32 (README: 220 GiB in the   *)
(* first and 110 GiB in the second working directory, less than 256 GiB    *)
(* together) reads 55, 27.5 and 64 bytes.  The plot counts as much as its  *)
(* finished part of a plot of k = 32 (101.4 GiB) would.                    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Dirs             \* 1, 2: working directories; 3: any other place
VARIABLES size,            \* file -> [dir, bytes]
          used,            \* dir -> bytes
          written,         \* dir -> bytes written so far
          open,            \* number of open files
          state
svars == <<size, used, written, open, state>>
PlotSize == 25340
Limit == [d \in 1 .. 2 |-> IF d = 1 THEN 55000 ELSE 27500]
LimitBoth == 64000
SInit == size = <<>> /\ used = [d \in Dirs |-> 0] /\ written = [d \in Dirs |-> 0] /\ open = 0 /\ state = "run"
Has(f) == f \in DOMAIN size
\* the file f in d has n bytes from now on
Grow(f, d, n) == /\ state = "run"
                 /\ LET old == IF Has(f) THEN size[f] ELSE 0 IN used' = [used EXCEPT ![d] = @ + n - old] /\ written' = [written EXCEPT ![d] = @ + n - old]
                 /\ size' = [g \in DOMAIN size \cup {f} |-> IF g = f THEN n ELSE size[g]]
                 /\ UNCHANGED <<open, state>>
Drop(f, d) == /\ state = "run"
              /\ used' = IF Has(f) THEN [used EXCEPT ![d] = @ - size[f]] ELSE used
              /\ size' = [g \in DOMAIN size \ {f} |-> size[g]]
              /\ UNCHANGED <<written, open, state>>
\* the file f in d is called g in e from now on
Move(f, d, g, e) == /\ state = "run" /\ Has(f) /\ ~Has(g)
                    /\ used' = [x \in Dirs |-> used[x] - (IF x = d THEN size[f] ELSE 0) + (IF x = e THEN size[f] ELSE 0)]
                    /\ size' = [h \in (DOMAIN size \ {f}) \cup {g} |-> IF h = g THEN size[f] ELSE size[h]]
                    /\ UNCHANGED <<written, open, state>>
Open == state = "run" /\ open' = open + 1 /\ UNCHANGED <<size, used, written, state>>
Close == state = "run" /\ open' = open - 1 /\ UNCHANGED <<size, used, written, state>>
\* the plot is there: nothing is held any more
End == state = "run" /\ open = 0 /\ state' = "done" /\ UNCHANGED <<size, used, written, open>>
\* joint: both working directories are the same
Fits(joint) == /\ ~joint => \A d \in {1, 2} : used[d] <= Limit[d]
               /\ used[1] + used[2] < LimitBoth
\* the first directory (slow disk) takes about a quarter (at most 30 %) of all writing, when all is written
Quarter(joint) == (state = "done" /\ ~joint) => 10 * written[1] <= 3 * (written[1] + written[2])
\* the number of files the program makes sure of before it starts: 2^buckets + 2 threads + 32
Handles(buckets, threads) == buckets + 2 * threads + 32
=============================================================================
