----------------------------- MODULE MatchTrace -----------------------------
(***************************************************************************)
(* Recorded forward propagation, judged against the matching rule.         *)
(*  [kind "case", ev]: a chosen left table: <<"L", <<q,r>>..>>,            *)
(*       <<"R", n, stored, <<pos, off, agree>>..>> in any order            *)
(*       (agree: the entry's value and metadata are those of the parents   *)
(*       it points at), then <<"fin", 0>>                                  *)
(*  complete runs: [kind "bucket", t, q, L, R, o]: remainders of bucket q  *)
(*       and q+1 of table t, o: pairs of indices the next table points at; *)
(*  [kind "table"/"first"/"last"]: totals                                  *)
(***************************************************************************)
EXTENDS PoSpace, FiniteSets, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, ph
vars == <<c, ph>>
Init == c \in 1 .. Len(Cases) /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ c' = c
Spec == Init /\ [][Next]_vars

SameBag(obs, exp) == LET S == {obs[i] : i \in DOMAIN obs} IN Len(obs) = Cardinality(S) /\ S = exp

\* every matching pair, once (matching is a relation: a pair matches for at most one m, and is found once)
CaseOk(ev) ==
  /\ Len(ev) = 3 /\ ev[1][1] = "L" /\ ev[2][1] = "R" /\ ev[3] = <<"fin", 0>>
  /\ LET L == ev[1][2]
         R == ev[2][4]
         n == Len(L)
         \* first index of each bucket, to look only at neighbours
         Next1(i) == {j \in i + 1 .. n : L[j][1] = L[i][1] + 1}
         Q == {L[i][1] : i \in 1 .. n}
         B == TLCEval([q \in Q |-> {i \in 1 .. n : L[i][1] = q}])
         exp == UNION {LET T == Targets(L[i][1] % 2, L[i][2])
                           N == IF L[i][1] + 1 \in Q THEN B[L[i][1] + 1] ELSE {}
                       IN {<<i, j>> : j \in {x \in N : L[x][2] \in T}} : i \in 1 .. n}
     IN /\ ev[2][2] = Len(R)
        /\ ev[2][3] = 1
        /\ \A i \in DOMAIN R : R[i][3] = 1
        /\ SameBag([i \in DOMAIN R |-> <<R[i][1] + 1, R[i][1] + R[i][2] + 1>>], exp)
BucketOk(r) ==
  /\ \A i \in 1 .. Len(r.L) - 1 : r.L[i] <= r.L[i + 1]
  /\ LET S == {r.R[j] : j \in DOMAIN r.R}
         at == TLCEval([v \in S |-> {j \in DOMAIN r.R : r.R[j] = v}])
         exp == UNION {UNION {{<<i, j>> : j \in at[v]} : v \in Targets(r.q % 2, r.L[i]) \cap S} : i \in DOMAIN r.L}
     IN SameBag(r.o, exp)
Right == (ph = 1) => LET r == Cases[c] IN
  CASE r.kind = "case" -> CaseOk(r.ev)
    [] r.kind = "bucket" -> BucketOk(r)
    [] r.kind = "table" -> r.bad = 0 /\ r.sorted = 1 /\ r.sum = r.right
    [] r.kind = "first" -> r.n = 2 ^ r.k /\ r.dup = 0
    [] r.kind = "last" -> r.wrong = 0
    [] OTHER -> FALSE
\* the two formulations of the rule agree (checked once, on all remainders of a few rows)
ASSUME \A p \in {0, 1} : \A rl \in {0, 1, 126, 127, 5000, 15112} :
         {rr \in 0 .. kBC - 1 : Matches(p, rl, p + 1, rr)} = Targets(p, rl)
=============================================================================
