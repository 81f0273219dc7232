------------------------------ MODULE CheckTrace ------------------------------
(***************************************************************************)
(* Recorded runs of the final phase.  Case: k, epp, ci, c2 (entries per    *)
(* park / per first-level / per second-level checkpoint), far (1: some gap *)
(* between final values has no code) and events                            *)
(*  <<"in", <<yhi, ylo, poshi, poslo>>..>>                                 *)
(*  <<"plot", bytes from the P7 table on, rest unchanged (1/0)>>           *)
(*  <<"ret", size - begin, C1 - begin, C2 - begin, C3 - begin>> and end,   *)
(*  or a reported failure.                                                 *)
(***************************************************************************)
EXTENDS Plot
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, ph
Init == c \in 1 .. Len(Cases) /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, ph>>

Good(r) ==
  LET ev == r.ev
      k == r.k
      in == ev[1][2]
      n == Len(in)
      w == ByteLen(k)
      n1 == CDiv(n, r.ci)
      n2 == CDiv(n1, r.c2)
      oC1 == FinC1(k, r.epp, n)
      oC2 == FinC2(k, r.epp, r.ci, n)
      oC3 == FinC3(k, r.epp, r.ci, r.c2, n)
      c3 == C3Bytes(k, r.ci)
      end == FinEnd(k, r.epp, r.ci, r.c2, n)
  IN IF Len(ev) # 4 THEN r.far = 1 /\ ev[Len(ev)] = <<"died", "terminate">>
     ELSE LET b == ev[2][2] IN
          /\ ev[2][1] = "plot" /\ ev[3][1] = "ret" /\ ev[4] = <<"fin", 0>>
          /\ ev[2][3] = 1
          /\ ev[3] = <<"ret", end, oC1, oC2, oC3>>
          /\ Len(b) = end
          /\ LET v == Values(b, oC1, oC3, k, r.ci, c3, n)
                 pos == [i \in 1 .. n |-> P7At(b, 0, k, r.epp, i)]
             IN /\ v # BADP /\ Len(v) = n /\ Ordered(v)
                /\ {<<v[i][1], v[i][2], pos[i][1], pos[i][2]>> : i \in 1 .. n} = {in[i] : i \in 1 .. n}
                /\ \A j \in 1 .. n2 : Num(b, 8 * (oC2 + (j - 1) * w), k) = v[(j - 1) * r.ci * r.c2 + 1]
                /\ Zero(b, oC1 + n1 * w, w) /\ Zero(b, oC2 + n2 * w, w)
Right == (ph = 1) => Good(Cases[c])
=============================================================================
