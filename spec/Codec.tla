-------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* Temporary records (phase1.h, phase2.h, phase3.h): the documented fields  *)
(* and widths, in the standard and in the large build, and the contract of  *)
(* an encoding.  A field value is a sequence of bytes, low byte first; the  *)
(* meta data is one wide field.  A store is a sequence of byte slots, one   *)
(* record per slot: writing record i changes slot i only and reading slot i *)
(* returns the record written there, whatever else memory holds.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json, IOUtils

\* record type -> field widths in bits, in the order of the harness
Types(big) ==
  IF big THEN
    [ e1 |-> <<40, 34>>,
      e2 |-> <<40, 35, 10, 72>>, e3 |-> <<40, 35, 10, 136>>, e4 |-> <<40, 35, 10, 136>>,
      e5 |-> <<40, 35, 10, 104>>, e6 |-> <<40, 35, 10, 72>>, e7 |-> <<34, 35, 10>>,
      t1 |-> <<34>>, tx |-> <<35, 10>>,
      p2 |-> <<35, 35, 10>>, lp |-> <<67, 35>>, np |-> <<35, 35>> ]
  ELSE
    [ e1 |-> <<38, 32>>,
      e2 |-> <<38, 32, 10, 64>>, e3 |-> <<38, 32, 10, 128>>, e4 |-> <<38, 32, 10, 128>>,
      e5 |-> <<38, 32, 10, 96>>, e6 |-> <<38, 32, 10, 64>>, e7 |-> <<32, 32, 10>>,
      t1 |-> <<32>>, tx |-> <<32, 10>>,
      p2 |-> <<32, 32, 10>>, lp |-> <<63, 32>>, np |-> <<32, 32>> ]

Pow2(i) == CASE i = 0 -> 1 [] i = 1 -> 2 [] i = 2 -> 4 [] i = 3 -> 8 [] i = 4 -> 16 [] i = 5 -> 32 [] i = 6 -> 64 [] i = 7 -> 128 [] OTHER -> 256
Bytes(w) == (w + 7) \div 8
\* largest value of byte b (1-based) of a w-bit field
Top(w, b) == IF 8 * b <= w THEN 255 ELSE Pow2(w - 8 * (b - 1)) - 1

Zero(w) == [b \in 1 .. Bytes(w) |-> 0]
Ones(w) == [b \in 1 .. Bytes(w) |-> Top(w, b)]
\* bit i (0-based) of a w-bit field
One(w, i) == [b \in 1 .. Bytes(w) |-> IF i \div 8 = b - 1 THEN Pow2(i % 8) ELSE 0]
Hole(w, i) == [b \in 1 .. Bytes(w) |-> Top(w, b) - (IF i \div 8 = b - 1 THEN Pow2(i % 8) ELSE 0)]
Rep(w, v) == [b \in 1 .. Bytes(w) |-> v % (Top(w, b) + 1)]
\* deterministic pseudo random bytes
Lcg(x) == (x * 1103 + 12345) % 65536
RECURSIVE Iter(_, _)
Iter(x, n) == IF n = 0 THEN x ELSE Iter(Lcg(x), n - 1)
Rnd(w, s) == [b \in 1 .. Bytes(w) |-> (Iter((s * 77 + b * 1299) % 65536, 3) \div 37) % (Top(w, b) + 1)]

\* a width is inside its field
InRange(w, v) == Len(v) = Bytes(w) /\ \A b \in 1 .. Len(v) : v[b] \in 0 .. Top(w, b)

\* field vectors for one record type
Vectors(ws, nrand) ==
  LET F == DOMAIN ws
      all(f(_)) == [k \in F |-> f(ws[k])]
      Z(w) == Zero(w)   O(w) == Ones(w)
      solo == {[k \in F |-> IF k = j THEN One(ws[k], i) ELSE Zero(ws[k])] : <<j, i>> \in {<<a, b>> \in F \X (0 .. 135) : b < ws[a]}}
      hole == {[k \in F |-> IF k = j THEN Hole(ws[k], i) ELSE Ones(ws[k])] : <<j, i>> \in {<<a, b>> \in F \X (0 .. 135) : b < ws[a]}}
      corner == {[k \in F |-> IF k \in S THEN Ones(ws[k]) ELSE Zero(ws[k])] : S \in SUBSET F}
      reps == {[k \in F |-> Rep(ws[k], v)] : v \in {170, 85, 15, 240, 204, 51, 129, 126}}
      rnds == {[k \in F |-> Rnd(ws[k], s * 10 + k)] : s \in 1 .. nrand}
  IN solo \cup hole \cup corner \cup reps \cup rnds
\* two bits in different fields
Pairs(ws) ==
  LET F == DOMAIN ws IN
  UNION {UNION {{[k \in F |-> IF k = a THEN One(ws[k], i) ELSE IF k = b THEN One(ws[k], j) ELSE Zero(ws[k])]
                 : i \in 0 .. ws[a] - 1, j \in 0 .. ws[b] - 1} : b \in {x \in F : x > a}} : a \in F}

Gen(big, nrand, pairs) ==
  LET T == Types(big) IN
  LET RECURSIVE Go(_, _)
      Go(D, acc) == IF D = {} THEN acc ELSE
         LET n == CHOOSE n \in D : TRUE
             V == Vectors(T[n], nrand) \cup (IF pairs THEN Pairs(T[n]) ELSE {})
             q == SetToSeq(V)
         IN Go(D \ {n}, acc \o [i \in DOMAIN q |-> [t |-> n, f |-> q[i]]])
  IN Go(DOMAIN T, <<>>)

(***************************************************************************)
(* Verdict on one execution:                                               *)
(*  [t, size: declared bytes, ret: returned sizes, in: records by slot,    *)
(*   out: records read back by slot, clean: 1 if no byte outside the slots *)
(*   written changed]                                                      *)
(***************************************************************************)
CaseOk(big, c) ==
  /\ c.t \in DOMAIN Types(big)
  /\ \A i \in DOMAIN c.in : \A k \in DOMAIN Types(big)[c.t] : InRange(Types(big)[c.t][k], c.in[i][k])
  /\ c.out = c.in
  /\ c.clean = 1
  /\ \A r \in DOMAIN c.ret : c.ret[r] = c.size
=============================================================================
