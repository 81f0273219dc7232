------------------------------- MODULE DiskTable -------------------------------
(***************************************************************************)
(* Contract of the disk table (include/chia/DiskTable.h).  Events:         *)
(*  <<"tnew">> <<"write", id>> <<"flush", size>> <<"close", size>>         *)
(*  <<"read", blocks>>, blocks: sequence of <<position, ids>>              *)
(*  size: get_info().num_entries after the call                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

TabInit == [ok |-> TRUE, why |-> "", rows |-> <<>>, done |-> FALSE]
TBad(s, w) == [s EXCEPT !.ok = FALSE, !.why = w]

\* blocks tile 1..n in order, each labelled with its first position
Tiles(bl, rows) ==
   LET RECURSIVE Go(_, _)
       Go(k, pos) == IF k > Len(bl) THEN pos = Len(rows)
                     ELSE /\ bl[k][1] = pos
                          /\ pos + Len(bl[k][2]) <= Len(rows)
                          /\ bl[k][2] = SubSeq(rows, pos + 1, pos + Len(bl[k][2]))
                          /\ Go(k + 1, pos + Len(bl[k][2]))
   IN Go(1, 0)

TabStep(s, e) ==
  CASE e[1] = "tnew" -> TabInit
    [] e[1] = "write" -> [s EXCEPT !.rows = Append(@, e[2])]
    [] e[1] \in {"flush", "close"} -> IF e[2] = Len(s.rows) THEN s ELSE TBad(s, "reported size wrong")
    [] e[1] = "read" -> IF Tiles(e[2], s.rows) THEN s ELSE TBad(s, "read does not return the table")
    [] e[1] = "fin" -> IF e[2] = 0 THEN [s EXCEPT !.done = TRUE] ELSE TBad(s, "threads alive")
    [] OTHER -> TBad(s, "died or stalled")

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, s
Brief == [t |-> t, l |-> l, s |-> [ok |-> s.ok, why |-> s.why]]        \* what counterexamples show
vars == <<t, l, s>>
Init == t \in 1 .. Len(Traces) /\ l = 1 /\ s = TabInit
Next == /\ l <= Len(Traces[t].ev) /\ s.ok
        /\ s' = TabStep(s, Traces[t].ev[l]) /\ l' = l + 1 /\ t' = t
Accepted == s.ok
Complete == (l > Len(Traces[t].ev)) => s.done
Spec == Init /\ [][Next]_vars
=============================================================================
