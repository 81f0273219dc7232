------------------------------- MODULE KeysTrace -------------------------------
(***************************************************************************)
(* Batches of the real program: per plot the header's id and memo, the     *)
(* name, and the options; rand: the random bytes requested.                *)
(***************************************************************************)
EXTENDS Keys, FiniteSets, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, p, ph
Init == c \in 1 .. Len(Runs) /\ p \in 1 .. Len(Runs[c].plots) /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ UNCHANGED <<c, p>>
Spec == Init /\ [][Next]_<<c, p, ph>>
R == Runs[c]
Q == R.plots[p]
Contract == Len(R.addr) > 0
Owner == IF Contract THEN PuzzleHash(R.addr) ELSE R.pool
Master == SubSeq(Q.memo, Len(Q.memo) - 31, Len(Q.memo))
MemoRight == ph = 1 => Len(Q.memo) = Len(Owner) + 48 + 32 /\ Q.memo = Memo(Owner, R.farmer, Master)
IdRight == ph = 1 => Q.id = (IF Len(R.id) > 0 THEN R.id ELSE PlotId(Master, R.port, R.farmer, Owner, Contract, R.unique = 1))
\* the secret comes from 32 fresh random bytes and is used once
Fresh == ph = 1 => /\ \E r \in 1 .. Len(R.rand) : Len(R.rand[r]) >= 32 /\ KeyGen(R.rand[r]) = Master
                   /\ \A x \in 1 .. Len(R.plots) : x # p => SubSeq(R.plots[x].memo, Len(Q.memo) - 31, Len(Q.memo)) # Master
NameRight == ph = 1 => Q.nameid = Q.id /\ Q.namek = Q.k /\ Q.k = R.k
=============================================================================
