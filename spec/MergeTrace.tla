------------------------------ MODULE MergeTrace ------------------------------
(* Recorded runs of the line-point merge: <<"L", values by rank>>, <<"R", <<pos, distance, key>>..>>, <<"out", <<point, key>>..>>, end. *)
EXTENDS Big, FiniteSets, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, ph
Init == c \in 1 .. Len(Cases) /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, ph>>
Rng(s) == {s[i] : i \in DOMAIN s}
Bag(s) == LET S == Rng(s) IN IF Cardinality(S) = Len(s) THEN S ELSE {<<v, Cardinality({i \in DOMAIN s : s[i] = v})>> : v \in S}
Merged(L, R) == [i \in DOMAIN R |-> <<LinePoint(L[R[i][1] + 1], L[R[i][1] + R[i][2] + 1]), R[i][3]>>]
Right == (ph = 1) =>
  LET ev == Cases[c].ev
  IN /\ Len(ev) = 4 /\ ev[1][1] = "L" /\ ev[2][1] = "R" /\ ev[3][1] = "out" /\ ev[4] = <<"fin", 0>>
     /\ Bag(ev[3][2]) = Bag(Merged(ev[1][2], ev[2][2]))
     /\ \A i \in 1 .. Len(ev[3][2]) - 1 : BLe(ev[3][2][i][1], ev[3][2][i + 1][1])
=============================================================================
