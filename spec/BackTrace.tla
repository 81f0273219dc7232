------------------------------ MODULE BackTrace ------------------------------
EXTENDS Back, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, ph
Init == c \in 1 .. Len(Cases) /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, ph>>
Right == (ph = 1) =>
  LET r == Cases[c].ev
      T == [t \in 2 .. 7 |-> r[t - 1][3]]
      out == [t \in 2 .. 7 |-> r[6 + t][3]]
  IN /\ Len(r) = 14 /\ \A t \in 2 .. 7 : r[t - 1][1] = "in" /\ r[t - 1][2] = t /\ r[6 + t][1] = "out" /\ r[6 + t][2] = t
     /\ r[7][1] = "marks" /\ r[7][3] = 1 /\ r[14] = <<"fin", 0>>
     /\ BackOk(T, Len(r[7][2]), r[7][2], out) = ""
=============================================================================
