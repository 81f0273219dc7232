------------------------------- MODULE Options -------------------------------
(***************************************************************************)
(* The command line: which combinations of options start plotting.  An     *)
(* assignment of values to options is a record; forms of keys, addresses   *)
(* and directories are abstract ("ok", "short", ...), numbers are numbers; *)
(* NoNum stands for an option that is not given.                           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
NoNum == -999
RECURSIVE Log2(_)
Log2(n) == IF n < 2 THEN 0 ELSE 1 + Log2(n \div 2)
\* numbers of buckets: from 16 on the number itself, below its logarithm
LogB(n) == IF n >= 16 THEN Log2(n) ELSE n
Given(n, d) == IF n = NoNum THEN d ELSE n
Buckets(o) == Given(o.u, 256)
Buckets3(o) == LET v == Given(o.v, 0) IN IF v <= 0 THEN Buckets(o) ELSE v
InRange(o, kmax) == /\ Given(o.k, 32) \in 16 .. kmax
                    /\ Given(o.r, 4) \in 1 .. 1024
                    /\ Given(o.m, 1) >= 1                  \* thread multiplier of phase 2
                    /\ LogB(Buckets(o)) \in 4 .. 16
                    /\ LogB(Buckets3(o)) \in 4 .. 16
NotGiven(x) == x \in {"none", "empty"}
Keys(o) == /\ o.f = "ok"
           /\ (o.p = "ok" /\ NotGiven(o.c)) \/ (o.c = "ok" /\ NotGiven(o.p))
           /\ o.i \in {"none", "ok"}
Dirs(o) == /\ o.t = "ok" /\ o.t2 \in {"none", "ok"} /\ o.d \in {"none", "ok"} /\ o.s \in {"none", "ok"}
           /\ ~(o.s # "none" /\ o.g = 1)
Valid(o, kmax) == InRange(o, kmax) /\ Keys(o) /\ Dirs(o)
\* whether enough files can be opened depends on the machine
Resources(o) == o.nofile = "many" /\ LogB(Buckets(o)) <= 9 /\ LogB(Buckets3(o)) <= 9 /\ Given(o.r, 4) <= 1024
Verdict(o, kmax) == IF ~Valid(o, kmax) THEN "refuse" ELSE IF Resources(o) THEN "start" ELSE "either"

=============================================================================
