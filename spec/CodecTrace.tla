----------------------------- MODULE CodecTrace -----------------------------
(* one initial state per executed case; the invariant is the contract *)
EXTENDS Codec
CONSTANT BIG
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, ph      \* the second step spreads the cases over the workers
Init == c \in 1 .. Len(Cases) /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, ph>>
Lossless == (ph = 1) => CaseOk(BIG, Cases[c])
=============================================================================
