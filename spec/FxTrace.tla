------------------------------- MODULE FxTrace -------------------------------
(***************************************************************************)
(* Recorded evaluations of the plotter's table functions.                  *)
(*  [kind "tree", k, id, xs: 2^n limbs, ys: per level, per entry, limbs]   *)
(*  [kind "f1", k, id, g, e: sequence of <<x % 512, limbs of y>>]: what    *)
(*        compute_f1 stored for x in g*512 .. g*512+511                    *)
(*  [kind "f1all", k, groups, total, other]                                *)
(***************************************************************************)
EXTENDS PoSpace, FiniteSets, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, ph      \* the second step spreads the cases over the workers
Init == c \in 1 .. Len(Cases) /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, ph>>

TreeOk(r) ==
  LET t == FullTree(F1Key(r.id), r.k, r.xs) IN
  /\ Len(t) = Len(r.ys)
  /\ \A l \in DOMAIN t : /\ Len(t[l]) = Len(r.ys[l])
                         /\ \A i \in DOMAIN t[l] : BitsLimbs(t[l][i].y, 3) = r.ys[l][i]
F1Ok(r) ==
  LET key == F1Key(r.id)
      ks == TLCEval([b \in 1 .. r.k |-> Keystream(key, <<(r.g * r.k + b - 1) % 65536, (r.g * r.k + b - 1) \div 65536, 0, 0>>)])
      bit(j) == ks[(j \div 512) + 1][(j % 512) + 1]
      yb(i) == [j \in 1 .. r.k |-> bit(i * r.k + j - 1)] \o SubSeq(LimbBits(<<(r.g * 512 + i) % 65536, (r.g * 512 + i) \div 65536, 0>>, r.k), 1, 6)
  IN /\ Len(r.e) = 512
     /\ {r.e[i][1] : i \in 1 .. 512} = 0 .. 511
     /\ \A i \in 1 .. 512 : BitsLimbs(yb(r.e[i][1]), 3) = r.e[i][2]
Right == (ph = 1) => LET r == Cases[c] IN
  CASE r.kind = "tree" -> TreeOk(r)
    [] r.kind = "f1" -> F1Ok(r)
    [] r.kind = "f1all" -> r.groups = 2 ^ (r.k - 9) /\ r.total = 2 ^ r.k /\ r.other = 0
    [] OTHER -> FALSE
=============================================================================
