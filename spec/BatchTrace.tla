------------------------------ MODULE BatchTrace ------------------------------
(***************************************************************************)
(* Real batch runs.  A case has the options (n, direct, wait) and ev:      *)
(*  [e |-> "start", p]  first temporary file of plot p                     *)
(*  [e |-> "fin", p]    the finished plot p has its name where it is made  *)
(*  [e |-> "dest", p]   it has its name at the destination                 *)
(*  [e |-> "sig"], [e |-> "exit", p |-> status]                            *)
(* The decision to make a plot is not visible; it precedes its start.      *)
(* dirs: per finished plot, which directories held temporary files, which  *)
(* of them the larger part of the data, where it was made, where it went.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES begun, cur, staged, dest, sig, res, c, l, started
tvars == <<begun, cur, staged, dest, sig, res, c, l, started>>
B == INSTANCE Batch WITH N <- Cases[c].n, Direct <- Cases[c].direct = 1, Wait <- Cases[c].wait = 1
Ev == Cases[c].ev
TInit == c \in 1 .. Len(Cases) /\ l = 0 /\ started = 0 /\ B!BInit
E == Ev[l + 1]
Visible == /\ l < Len(Ev) /\ l' = l + 1 /\ UNCHANGED c
           /\ \/ /\ E.e = "start" /\ cur = E.p /\ started = E.p - 1 /\ started' = E.p /\ UNCHANGED <<begun, cur, staged, dest, sig, res>>
              \/ E.e = "fin" /\ cur = E.p /\ started = E.p /\ B!Finish /\ UNCHANGED started
              \/ E.e = "dest" /\ B!Move(E.p) /\ UNCHANGED started
              \/ E.e = "sig" /\ B!Signal /\ UNCHANGED started
              \/ E.e = "exit" /\ E.p = 0 /\ B!Done /\ UNCHANGED started
              \/ E.e = "exit" /\ E.p # 0 /\ Cases[c].mayfail = 1 /\ B!Fail /\ UNCHANGED started
\* decided as early as possible if the plot is started at all: that allows most
Later == \E k \in l + 1 .. Len(Ev) : Ev[k].e = "start" /\ Ev[k].p = begun + 1
Silent == Later /\ B!Begin /\ UNCHANGED <<c, l, started>>
CanBegin == /\ Later /\ res = "run" /\ cur = 0 /\ ~sig /\ (Cases[c].n < 0 \/ begun < Cases[c].n) /\ (Cases[c].wait = 1 => staged = {})
TNext == IF CanBegin THEN Silent ELSE Visible
TSpec == TInit /\ [][TNext]_tvars
Rng(q) == {q[k] : k \in 1 .. Len(q)}
\* directories: d1, d2 the temporary ones, st the stage, fd the final one, as numbers; -1: not determined by the options
Right == LET k == Cases[c] IN \A p \in 1 .. Len(k.dirs) : LET d == k.dirs[p] IN
   /\ Rng(d.used) \subseteq {k.d1, k.d2}
   /\ k.d1 # k.d2 => d.heavy = (IF k.toggle = 1 /\ p % 2 = 0 THEN k.d1 ELSE k.d2)
   /\ IF k.st >= 0 THEN d.made = k.st ELSE d.made \in {k.d1, k.d2}
   /\ IF k.fd >= 0 THEN d.went = k.fd ELSE d.went \in {k.d1, k.d2}
\* every event can be explained
Stuck == ~(l < Len(Ev) /\ ~ENABLED TNext)
BTypeOK == B!BTypeOK
Exact == B!Exact
OneByOne == B!OneByOne
=============================================================================
