------------------------------ MODULE PlotTrace ------------------------------
(***************************************************************************)
(* Finished plots, judged against the definition.  Per plot:               *)
(*  hdr: the header writer alone;                                          *)
(*  head: header bytes, file size;  all: totals of an independent reader   *)
(*  that follows every stored pointer;  fin: the final section, to list    *)
(*  exactly the final values of an independent reference plotter;          *)
(*  park: parks as the reader decoded them;  proof: complete proofs as the *)
(*  reader followed them;  tree, bucket: samples of the reference plotter. *)
(***************************************************************************)
EXTENDS Plot
PS == INSTANCE PoSpace
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, ph
Init == c \in 1 .. Len(Cases) /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, ph>>

\* a bit string of up to 30 bits as a number
YInt(y) == FoldLeft(LAMBDA a, x : 2 * a + x, 0, y)
Y7(y) == LET n == Len(y) IN <<YInt(SubSeq(y, 1, n - 16)), YInt(SubSeq(y, n - 15, n))>>
\* xs are the leaves of a valid proof of final value f7
ValidProof(id, k, xs, f7) ==
  LET T == PS!FullTree(PS!F1Key(id), k, xs) IN
  /\ Len(xs) = 64 /\ Len(T) = 7
  /\ \A l \in 1 .. 6 : \A i \in 1 .. Len(T[l]) \div 2 :
       LET a == YInt(T[l][2 * i - 1].y)
           b == YInt(T[l][2 * i].y)
       IN PS!Matches(a \div PS!kBC, a % PS!kBC, b \div PS!kBC, b % PS!kBC)
  /\ Y7(T[7][1].y) = f7
\* limbs of 16 bits -> limbs of 12 bits (x < 2^32)
To12(x) == LET v == <<x[1] % 4096, (x[1] \div 4096) + (x[2] % 256) * 16, x[2] \div 256>> IN <<v[1], v[2], v[3], 0, 0, 0>>
\* lev[1]: the entry of table 6, lev[2]: its two entries of table 5, ..., each <<position, line point>>
PathRight(lev, xs) ==
  \A l \in 1 .. 6 : \A j \in 1 .. Len(lev[l]) :
     LET a == IF l < 6 THEN lev[l + 1][2 * j - 1][1] ELSE To12(xs[2 * j - 1])
         b == IF l < 6 THEN lev[l + 1][2 * j][1] ELSE To12(xs[2 * j])
     IN lev[l][j][2] = LinePoint(a, b)
FinRight(r) ==
  LET k == r.k  n == r.n  b == r.bytes IN
  /\ r.oC1 = FinC1(k, EPP, n) /\ r.oC2 = FinC2(k, EPP, CI, n) /\ r.oC3 = FinC3(k, EPP, CI, CI, n)
  /\ Len(b) = FinEnd(k, EPP, CI, CI, n)
  /\ Values(b, r.oC1, r.oC3, k, CI, C3Bytes(k, CI), n) = r.f7
  /\ (n > 0) => Num(b, 8 * r.oC2, k) = r.f7[1]
  /\ Zero(b, r.oC1 + CDiv(n, CI) * ByteLen(k), ByteLen(k))
  /\ \A i \in DOMAIN r.smp : P7At(b, 0, k, EPP, r.smp[i][1]) = r.smp[i][2]
BucketRight(r) ==
  LET S == {r.R[j] : j \in DOMAIN r.R}
      mult == [v \in S |-> Cardinality({j \in DOMAIN r.R : r.R[j] = v})]
      ml == [v \in {r.L[i] : i \in DOMAIN r.L} |-> Cardinality({i \in DOMAIN r.L : r.L[i] = v})]
      exp == UNION {{<<v, w>> : w \in PS!Targets(r.par, v) \cap S} : v \in DOMAIN ml}
      got == {r.pairs[i] : i \in DOMAIN r.pairs}
  IN /\ got = exp
     /\ \A p \in exp : Cardinality({i \in DOMAIN r.pairs : r.pairs[i] = p}) = ml[p[1]] * mult[p[2]]
Good(r) ==
  CASE r.kind = "head" -> HeaderRight(r.bytes, r.id, r.k, r.memo, r.n, r.size)
    [] r.kind = "hdr" -> r.bytes = HeaderFields(r.id, r.k, r.memo) \o [i \in 1 .. 80 |-> 0] /\ r.ret = HeaderLen(r.memo)
    [] r.kind = "all" -> r.bad = 0
    [] r.kind = "fin" -> FinRight(r)
    [] r.kind = "park" -> Park(r.bytes, 0, r.k, r.t, r.n) = r.pts
    [] r.kind = "proof" -> ValidProof(r.id, r.k, r.xs, r.f7) /\ PathRight(r.lev, r.xs)
    [] r.kind = "tree" -> ValidProof(r.id, r.k, r.xs, r.f7)
    [] r.kind = "bucket" -> BucketRight(r)
    [] r.kind = "run" -> r.rc = 0 /\ r.plot = 1          \* the plotter finished and the plot is there
    [] OTHER -> FALSE
Right == (ph = 1) => Good(Cases[c])
=============================================================================
