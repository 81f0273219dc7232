------------------------------- MODULE DiskSort -------------------------------
(***************************************************************************)
(* Contract of the disk sort (include/chia/DiskSort.hpp) as a monitor over *)
(* public calls.  An entry is <<hi, mid, lo, id>>: the key in base 2^31, id *)
(* is a digest of the complete record.  Used by DiskSortGen (generates          *)
(* histories) and DiskSortTrace (replays/recordings of the real class).    *)
(*                                                                         *)
(* Events, r = "ok" | "exc" (the call threw):                              *)
(*   <<"new", nb, r>>            fresh sort                                *)
(*   <<"open", nb, r>>           reopened read-only                        *)
(*   <<"add", c, entry, inrange, r>>  into cache c (0 = built-in)          *)
(*   <<"adds", c, entries, r>>   many at once, all in range                *)
(*   <<"cnew", c, r>> <<"cflush", c, r>> <<"cdel", c, r>>                  *)
(*   <<"finish", r>> <<"keep", b, r>> <<"close", r>> <<"destroy", r>>      *)
(*   <<"read", blocks, r>>       blocks: sequence of <<offset, entries>>   *)
(*   <<"ls", files, bytes, others>>  own files in the directory, their     *)
(*             total size in records (-1: no multiple), 1 if all foreign   *)
(*             files are untouched                                         *)
(*   <<"fin", 0>>  <<"died", w>>  <<"stall", w>>                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]

SortInit ==
  [ ok |-> TRUE, why |-> "", life |-> "none",    \* none, open, fin, closed
    keep |-> FALSE,
    pend |-> <<>>,       \* cache -> sequence of entries not known to be stored
    disk |-> <<>>,       \* entries stored for certain (sequence used as a bag)
    maybe |-> {},        \* entries that may or may not have been stored
    late |-> FALSE,      \* an entry was accepted after finish: the run must fail
    files |-> "none",    \* none | data (must be there) | gone (must not be there)
    nb |-> 0, done |-> FALSE ]

SBad(s, why) == [s EXCEPT !.ok = FALSE, !.why = why]

Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
LessEq(a, b) == ~Less(b, a)

Flat(bl) == FoldLeft(LAMBDA acc, x : acc \o x[2], <<>>, bl)
Elems(q) == {q[i] : i \in DOMAIN q}

\* each block carries the number of entries before it
OffsetsTrue(bl) == FoldLeft(LAMBDA acc, x : IF acc = -1 \/ x[1] # acc THEN -1 ELSE acc + Len(x[2]), 0, bl) # -1
Sorted(q) == \A i \in 1 .. Len(q) - 1 : LessEq(q[i], q[i + 1])

\* same multiset.  Canon lists the elements in TLC's normal order of sets (a permutation of q,
\* so equal Canon means equal multisets; used only when there are repetitions)
Canon(q) == LET z == SetToSeq({<<q[i], i>> : i \in DOMAIN q}) IN [j \in DOMAIN z |-> z[j][1]]
SameBag(p, q) == /\ Len(p) = Len(q)
                 /\ LET P == Elems(p) IN
                    /\ P = Elems(q)
                    /\ Cardinality(P) < Len(p) => Canon(p) = Canon(q)

ReadOk(s, bl) ==
   LET q == Flat(bl) IN
   IF ~OffsetsTrue(bl) THEN "wrong block offset"
   ELSE IF ~Sorted(q) THEN "output not in key order"
   ELSE IF s.maybe = {} THEN IF SameBag(s.disk, q) THEN "" ELSE "output is not the added entries"
   ELSE IF Elems(s.disk) \subseteq Elems(q) /\ Elems(q) \subseteq Elems(s.disk) \cup s.maybe THEN ""
   ELSE "output is not the added entries"

SortStep(s, e) ==
  LET op == e[1]
      r  == IF op \in {"ls", "fin", "died", "stall"} THEN "" ELSE e[Len(e)]
      C(c) == IF c \in DOMAIN s.pend THEN s.pend[c] ELSE <<>>
      fin == s.life \in {"fin", "closed"}
  IN
  CASE op = "new" -> IF r # "ok" THEN SBad(s, "cannot create")
                     ELSE [SortInit EXCEPT !.life = "open", !.files = "data", !.nb = e[2]]
    [] op = "open" -> IF r # "ok" THEN SBad(s, "cannot reopen kept files")
                      ELSE [s EXCEPT !.life = "fin", !.keep = TRUE, !.pend = <<>>]
    [] op = "add" ->
         IF e[4] = 0 THEN IF r = "exc" THEN s ELSE SBad(s, "key out of range accepted")
         ELSE IF r = "exc" THEN IF fin THEN s ELSE SBad(s, "entry refused")
         ELSE IF fin THEN [s EXCEPT !.late = TRUE, !.pend = Put(@, e[2], Append(C(e[2]), e[3]))]
         ELSE [s EXCEPT !.pend = Put(@, e[2], Append(C(e[2]), e[3]))]
    [] op = "adds" -> IF r = "ok" /\ ~fin THEN [s EXCEPT !.pend = Put(@, e[2], C(e[2]) \o e[3])] ELSE SBad(s, "entry refused")
    [] op = "cnew" -> IF r # "ok" THEN SBad(s, "cannot create write cache") ELSE s
    [] op \in {"cflush", "cdel"} ->
         IF C(e[2]) = <<>> THEN IF r = "ok" THEN s ELSE SBad(s, "flush failed")
         ELSE IF fin THEN IF r = "exc" THEN s ELSE SBad(s, "entries accepted after finish")
         ELSE IF r # "ok" THEN SBad(s, "flush failed")
         ELSE [s EXCEPT !.disk = @ \o C(e[2]), !.pend = Put(@, e[2], <<>>)]
    [] op = "finish" ->
         IF fin THEN IF C(0) = <<>> THEN (IF r = "ok" THEN s ELSE SBad(s, "finish failed"))
                     ELSE IF r = "exc" THEN s ELSE SBad(s, "entries accepted after finish")
         ELSE IF r # "ok" THEN SBad(s, "finish failed")
         ELSE [s EXCEPT !.life = "fin", !.disk = @ \o C(0),
                        !.pend = Put(@, 0, <<>>),
                        !.maybe = UNION {Elems(s.pend[c]) : c \in (DOMAIN s.pend) \ {0}}]
    [] op = "keep" -> IF r # "ok" THEN SBad(s, "keep") ELSE [s EXCEPT !.keep = (e[2] = 1)]
    [] op = "read" ->
         IF s.life # "fin" THEN SBad(s, "script: read before finish")
         ELSE IF r # "ok" THEN (IF s.files = "gone" THEN s ELSE SBad(s, "read failed"))
         ELSE LET w == ReadOk(s, e[2]) IN
              IF w # "" THEN SBad(s, w)
              ELSE IF s.keep THEN s ELSE [s EXCEPT !.files = "gone"]
    [] op \in {"close", "destroy"} ->
         IF r # "ok" THEN (IF s.late THEN s ELSE SBad(s, "close failed"))
         ELSE IF op = "destroy" /\ s.late THEN SBad(s, "entry accepted after finish and dropped silently")
         ELSE [s EXCEPT !.life = IF op = "close" THEN "closed" ELSE "none",
                        !.files = IF s.life = "closed" THEN @ ELSE IF s.keep THEN @ ELSE "gone"]
    [] op = "ls" ->
         IF e[4] # 1 THEN SBad(s, "a foreign file was touched")
         ELSE IF s.files \in {"gone", "none"} /\ e[2] # 0 THEN SBad(s, "temporary files left behind")
         ELSE IF s.files = "data" /\ s.life \in {"fin", "closed", "none"} /\ s.maybe = {} /\ e[3] # Len(s.disk)
              THEN SBad(s, "stored data does not match the entries added")
         ELSE s
    [] op = "fin" -> IF s.late /\ s.life = "none" THEN SBad(s, "late entry") ELSE [s EXCEPT !.done = TRUE]
    [] op = "died" ->
         IF s.late \/ s.files = "gone" \/ (fin /\ \E c \in DOMAIN s.pend : s.pend[c] # <<>>)
         THEN [s EXCEPT !.done = TRUE] ELSE SBad(s, "process died")
    [] OTHER -> SBad(s, "stalled or unknown event")
=============================================================================
