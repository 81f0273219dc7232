-------------------------------- MODULE Back --------------------------------
(***************************************************************************)
(* Back propagation (phase2.hpp): from tables 2..7 of back references      *)
(* <<pos, off>> (0-based positions of the left parent and distance of the  *)
(* right one) to the kept entries, renumbered.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

\* positions of table t-1 referred to by the entries of table t (E) that are in use (U: 0-based positions)
Parents(E, U) == UNION {{E[i + 1][1], E[i + 1][1] + E[i + 1][2]} : i \in U}
\* rank[i + 1] = number of used positions below i; for a table of n entries
Ranks(U, n) == FoldLeft(LAMBDA acc, i : Append(acc, acc[Len(acc)] + IF (i - 1) \in U THEN 1 ELSE 0), <<0>>, [i \in 1 .. n |-> i])
Kept(E, U, own, below) ==      \* <<sort key, new left position, new distance>>
   {<<own[i + 1], below[E[i + 1][1] + 1], below[E[i + 1][1] + E[i + 1][2] + 1] - below[E[i + 1][1] + 1]>> : i \in U}

All(E) == 0 .. Len(E) - 1
Is(seq, S) == LET O == {seq[i] : i \in DOMAIN seq} IN Cardinality(O) = Len(seq) /\ O = S

\* T: 2..7 -> table, n1: entries of table 1, marks, out: 2..7 -> output
BackOk(T, n1, marks, out) ==
  LET U7 == All(T[7])
      U6 == TLCEval(Parents(T[7], U7))
      U5 == TLCEval(Parents(T[6], U6))
      U4 == TLCEval(Parents(T[5], U5))
      U3 == TLCEval(Parents(T[4], U4))
      U2 == TLCEval(Parents(T[3], U3))
      U1 == TLCEval(Parents(T[2], U2))
      U == <<U1, U2, U3, U4, U5, U6, U7>>
      N(t) == IF t = 1 THEN n1 ELSE Len(T[t])
      Rk == TLCEval([t \in 1 .. 6 |-> Ranks(U[t], N(t))])
  IN IF Len(marks) # n1 \/ \E i \in 1 .. n1 : marks[i] # (IF (i - 1) \in U1 THEN 1 ELSE 0) THEN "wrong entries of table 1 marked"
     ELSE IF \E t \in 2 .. 6 : ~Is(out[t], Kept(T[t], U[t], Rk[t], Rk[t - 1])) THEN "kept entries or their references wrong"
     ELSE IF out[7] # [i \in 1 .. Len(T[7]) |-> <<Rk[6][T[7][i][1] + 1], Rk[6][T[7][i][1] + T[7][i][2] + 1] - Rk[6][T[7][i][1] + 1], T[7][i][3]>>]
          THEN "final table changed"
     ELSE ""
=============================================================================
