------------------------------- MODULE MoveTrace -------------------------------
(***************************************************************************)
(* What is on disk after killing the real move at each of its system calls *)
(* in turn (st: <<src, dst, work>>..., then the state at its end and the   *)
(* result): must be a behaviour of Move.                                   *)
(***************************************************************************)
EXTENDS Move, Sequences, Integers, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, i
At(n) == Cases[c].st[n]
TInit == /\ c \in 1 .. Len(Cases) /\ i = 1
         /\ src = At(1)[1] /\ dst = At(1)[2] /\ work = At(1)[3] /\ res = "run"
TNext == /\ c' = c /\ i' = i + 1
         /\ IF i < Len(Cases[c].st)
            THEN src' = At(i + 1)[1] /\ dst' = At(i + 1)[2] /\ work' = At(i + 1)[3] /\ res' = res
            ELSE i = Len(Cases[c].st) /\ res' = Cases[c].res /\ UNCHANGED <<src, dst, work>>
TSpec == TInit /\ [][TNext]_<<mvars, c, i>>
Right == Spec            \* checked as a property: every recording is a behaviour of Move
=============================================================================
