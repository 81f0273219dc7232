------------------------------- MODULE PoolLong -------------------------------
(* long runs of a pool, judged at their end: the contract of Pool for n      *)
(* items 0 .. n-1 without failures - every item's result once, in order - is *)
(* that the deliveries form the single run <<0, n>>; work is spread over at  *)
(* most as many workers as asked for                                         *)
EXTENDS Integers, Sequences, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, ph
Init == c \in 1 .. Len(Cases) /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, ph>>
R == Cases[c]
Right == ph = 1 => /\ R.runs = (IF R.n = 0 THEN <<>> ELSE << <<0, R.n>> >>)
                   /\ R.locals <= R.th
=============================================================================
