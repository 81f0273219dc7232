------------------------------ MODULE SpaceImpl ------------------------------
(***************************************************************************)
(* The data the four phases keep on disk, stage by stage, with the sizes   *)
(* of a k = 32 plot (thousandths of a byte per 2^k entries, README log).   *)
(* A stage reads sorts bucket by bucket, each bucket is removed once read; *)
(* it reads tables, which are removed after the stage; and writes its      *)
(* output not before the input it stems from has been read.                *)
(* Ahead: buckets read but not yet removed (one per reading thread).       *)
(* Keep: data whose removal is forgotten; Lazy: sorts which are removed    *)
(* only after the stage; Swap: data written to the other directory;        *)
(* Deferred: tables of phase 1 all removed at the end of phase 2.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS B, Ahead, Keep, Lazy, Swap, Deferred
Kept == <<0, 799, 801, 807, 823, 865, 1000>>          \* entries of table t left by phase 2
P1Size == <<9000, 18000, 26000, 26000, 22000, 18000>>
Park == <<3460, 3260, 3280, 3350, 3520, 4060>>        \* table t of the plot, then the checkpoints
Weight(a, t) == CASE a = "s" -> P1Size[t]
                  [] a = "t" -> IF t = 1 THEN 4000 ELSE IF t = 7 THEN 10000 ELSE 6000
                  [] a = "u" -> 10000                         \* table 7 rewritten
                  [] a = "r" -> 10 * Kept[t]                  \* rewired entries
                  [] a = "l" -> 12 * Kept[t]                  \* line points
                  [] a = "n" -> 8 * Kept[t]                   \* new positions
                  [] a = "p" -> IF t = 7 THEN 4410 ELSE Park[t]
Dir(a, t) == CASE a = "t" -> IF t = 7 THEN 2 ELSE 1
               [] a = "r" -> IF t = 2 THEN 2 ELSE 1
               [] a = "p" -> 1
               [] OTHER -> 2
D(a, t) == <<a, t>>
\* <<sorts read, tables read, written>>
P1 == <<<<{}, {}, {D("s", 1)}>>>> \o [t \in 1 .. 5 |-> <<{D("s", t)}, {}, {D("t", t), D("s", t + 1)}>>] \o <<<<{D("s", 6)}, {}, {D("t", 6), D("t", 7)}>>>>
P2 == <<<<{}, {D("t", 7)}, {D("u", 7)}>>>> \o [j \in 1 .. 5 |-> LET t == 7 - j IN <<{}, IF Deferred THEN (IF t = 2 THEN {D("t", x) : x \in 2 .. 6} ELSE {}) ELSE {D("t", t)}, {D("r", t)}>>]
P3a(t) == <<(IF t > 2 THEN {D("n", t - 1)} ELSE {}) \cup (IF t < 7 THEN {D("r", t)} ELSE {}), IF t = 2 THEN {D("t", 1)} ELSE IF t = 7 THEN {D("u", 7)} ELSE {}, {D("l", t)}>>
P3b(t) == <<{D("l", t)}, {}, {D("n", t), D("p", t - 1)}>>
P3 == [j \in 1 .. 12 |-> IF j % 2 = 1 THEN P3a(2 + j \div 2) ELSE P3b(1 + j \div 2)]
P4 == <<<<{D("n", 7)}, {}, {D("p", 7)}>>>>
Stages == P1 \o P2 \o P3 \o P4
All == UNION {Stages[j][3] : j \in 1 .. Len(Stages)}
VARIABLES i, live, r, w          \* stage, complete data, buckets read, output written (of B)
vars == <<i, live, r, w>>
Init == i = 1 /\ live = {} /\ r = 0 /\ w = 0
Read == i <= Len(Stages) /\ r < B /\ r' = r + 1 /\ UNCHANGED <<i, live, w>>
Write == i <= Len(Stages) /\ w < r /\ w' = w + 1 /\ UNCHANGED <<i, live, r>>
Next == Read \/ Write
        \/ /\ i <= Len(Stages) /\ w = B /\ i' = i + 1 /\ r' = 0 /\ w' = 0
           /\ live' = (live \ ((Stages[i][1] \cup Stages[i][2]) \ Keep)) \cup Stages[i][3]
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Where(x) == IF x \in Swap THEN 3 - Dir(x[1], x[2]) ELSE Dir(x[1], x[2])
Max(a, b) == IF a > b THEN a ELSE b
Now(x) == LET full == Weight(x[1], x[2]) IN
          IF i > Len(Stages) THEN (IF x \in live THEN full ELSE 0)
          ELSE IF x \in Stages[i][3] THEN (full * w) \div B
          ELSE IF x \notin live THEN 0
          ELSE IF x \in Stages[i][1] \ (Lazy \cup Keep) THEN (full * (B - Max(r - Ahead, 0))) \div B
          ELSE full
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Now(x) + Sum(S \ {x})
used == [d \in 1 .. 3 |-> IF d = 3 THEN 0 ELSE Sum({x \in live \cup (IF i <= Len(Stages) THEN Stages[i][3] ELSE {}) : Where(x) = d})]
RECURSIVE Full(_)
Full(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE y \in X : TRUE IN Weight(x[1], x[2]) + Full(X \ {x})
total == [d \in 1 .. 3 |-> Full({x \in All : Where(x) = d})]
S == INSTANCE Space WITH Dirs <- 1 .. 3, size <- <<>>, written <- total, open <- 0, state <- IF i > Len(Stages) THEN "done" ELSE "run"
Fits == S!Fits(FALSE)
FitsJoint == S!Fits(TRUE)
Quarter == S!Quarter(FALSE)
OnlyPlot == i > Len(Stages) => live = {D("p", t) : t \in 1 .. 7}
Ends == <>(i > Len(Stages))
(***************************************************************************)
(* Open files in stage j with th threads and 2^lb buckets: all buckets of  *)
(* the sorts written, one bucket per reading thread of the sorts read, one *)
(* handle per reading thread of a table read, one per table written, and   *)
(* the plot.                                                               *)
(***************************************************************************)
Tabs == {"t", "u"}
Readers(j, th) == LET half(n) == Max(n \div 2, 2)
                      ph1 == j <= 7  two == Cardinality(Stages[j][1]) = 2
                      p3a == j > 13 /\ j <= 25 /\ (j - 13) % 2 = 1
                  IN IF ph1 THEN half(Max(th \div 2, 2)) ELSE IF p3a /\ two THEN half(Max(th \div 2, 1)) ELSE half(th)
OpenIn(j, th, b) == LET st == Stages[j] IN
      b * Cardinality({x \in st[3] : x[1] \notin Tabs \cup {"p"}})
    + Cardinality({x \in st[3] : x[1] \in Tabs})
    + Readers(j, th) * Cardinality(st[1]) + Max(th \div 4, 2) * Cardinality(st[2])
    + (IF j > 13 THEN 1 ELSE 0)
Enough == \A j \in 1 .. Len(Stages) : \A th \in 1 .. 1024 : \A lb \in 4 .. 16 : OpenIn(j, th, 2 ^ lb) <= S!Handles(2 ^ lb, th)
EnoughHandles == (i = 1 /\ r = 0) => Enough
=============================================================================
