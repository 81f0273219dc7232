------------------------------ MODULE FilesTrace ------------------------------
(***************************************************************************)
(* File operations of real runs.  A case: n paths (numbered from 1), other *)
(* (paths of somebody else, before or beside the run), ev: operations      *)
(* [o |-> c(reate) | w(rite) | d(elete) | n(othing there to delete)        *)
(*  | r(ename), p, q, f], then how it ended, what was there then (left)    *)
(*  and which plots should be (want).                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES mine, plots, other, state, c, i
tvars == <<mine, plots, other, state, c, i>>
MaxN == LET RECURSIVE M(_, _)
            M(k, m) == IF k > Len(Cases) THEN m ELSE M(k + 1, IF Cases[k].n > m THEN Cases[k].n ELSE m)
        IN M(1, 1)
F == INSTANCE Files WITH Paths <- 1 .. MaxN
Rng(s) == {s[k] : k \in 1 .. Len(s)}
TInit == /\ c \in 1 .. Len(Cases) /\ i = 0
         /\ F!FInit /\ other = Rng(Cases[c].other)
Ev == Cases[c].ev
TNext == /\ i' = i + 1 /\ UNCHANGED c
         /\ \/ /\ i < Len(Ev)
               /\ LET e == Ev[i + 1] IN
                  CASE e.o = "c" -> F!Create(e.p)
                    [] e.o = "w" -> F!Change(e.p)
                    [] e.o = "d" -> F!Remove(e.p)
                    [] e.o = "n" -> F!Nothing
                    [] e.o = "r" -> F!Rename(e.p, e.q, e.f = 1)
            \/ /\ i = Len(Ev)
               /\ Cases[c].touched = <<>>                                      \* what was there before is as it was
               /\ IF Cases[c].ok = 1
                  THEN F!Finish /\ Rng(Cases[c].want) = plots /\ Rng(Cases[c].left) = plots    \* exactly the plots are new
                  ELSE F!Abort
TSpec == TInit /\ [][TNext]_tvars
\* TLC's deadlock check finds the first operation that is not allowed; the end is fine
Stuck == ~(i <= Len(Ev) /\ ~ENABLED TNext)
=============================================================================
