------------------------------ MODULE ParkTrace ------------------------------
(***************************************************************************)
(* Recorded runs of the conversion of a sorted table to parks: events      *)
(* <<"in", t, k, begin, points in key order>> (keys 0..n-1),               *)
(* <<"plot", bytes from begin on, bytes before begin unchanged (1/0)>>,    *)
(* <<"ret", count, next begin - begin>>, <<"np", <<key, pos>>..>>, end;    *)
(* or a reported failure, allowed only if some gap cannot be represented.  *)
(***************************************************************************)
EXTENDS Format
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, ph
Init == c \in 1 .. Len(Cases) /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, ph>>
Good(ev, tight) ==
  LET t == ev[1][2]
      k == ev[1][3]
      pts == ev[1][5]
      n == Len(pts)
  IN IF Len(ev) # 5
     THEN tight = 1 /\ ev[Len(ev)] = <<"died", "terminate">>           \* a failure was reported: only for a table that cannot be represented
     ELSE /\ ev[2][1] = "plot" /\ ev[3][1] = "ret" /\ ev[4][1] = "np" /\ ev[5] = <<"fin", 0>>
          /\ ev[2][3] = 1
          /\ ev[3][2] = n /\ ev[3][3] = NumParks(n) * ParkSize(k, t)
          /\ Len(ev[2][2]) = NumParks(n) * ParkSize(k, t)
          /\ LET D == Table(ev[2][2], 0, k, t, n)
                 np == ev[4][2]
             IN /\ D # BADP /\ Len(D) = n
                /\ \A i \in 1 .. n - 1 : BLe(D[i], D[i + 1])
                /\ Len(np) = n
                /\ {np[i][2] : i \in 1 .. n} = 0 .. n - 1
                /\ \A i \in 1 .. n : np[i][1] = i - 1 /\ D[np[i][2] + 1] = pts[i]
Right == (ph = 1) => Good(Cases[c].ev, Cases[c].tight)
=============================================================================
