------------------------------- MODULE PoSpace -------------------------------
(***************************************************************************)
(* The Chia proof of space: table functions f1 .. f7, the matching rule.   *)
(* Written from the definition, independent of the plotter's code.         *)
(* x, y are bit strings (k, k+6, or k bits for y7).                        *)
(***************************************************************************)
EXTENDS ChaCha8, Blake3

\* metadata collation: bits of metadata (in units of k) carried by an entry of table t
MetaLen(t) == <<1, 2, 4, 4, 3, 2, 0>>[t]

\* --- table 1: keystream of ChaCha8 keyed with 1 || id[0..30]
F1Key(id) == CCKey(<<1>> \o SubSeq(id, 1, 31))
\* ctr: keystream block number as 4 limbs
Keystream(key, ctr) == WordsBits(TLCEval(CCBlock(key, ctr)))
\* x as limbs
F1(key, k, x) ==
  LET p == MulSmall(x, k, 4)
      off == p[1] % 512
      blk == ShrSmall(p, 9)
      a == Keystream(key, blk)
      s == IF off + k <= 512 THEN SubSeq(a, off + 1, off + k)
           ELSE SubSeq(a, off + 1, 512) \o SubSeq(Keystream(key, AddSmall(blk, 1)), 1, off + k - 512)
  IN s \o SubSeq(LimbBits(x, k), 1, 6)

\* --- tables 2 .. 7: entries are [y |-> bits, m |-> metadata bits]
Fx(k, t, L, R) ==
  LET h == TLCEval(B3Bits(L.y \o L.m \o R.m)) IN
  [ y |-> SubSeq(h, 1, IF t = 7 THEN k ELSE k + 6),
    m |-> IF t < 4 THEN L.m \o R.m
          ELSE IF t = 7 THEN <<>> ELSE SubSeq(h, k + 7, k + 6 + MetaLen(t) * k) ]

\* the complete tree over 2^n table-1 entries: ys of every level
Level1(key, k, xs) == [i \in DOMAIN xs |-> [y |-> F1(key, k, xs[i]), m |-> LimbBits(xs[i], k)]]
Up(k, t, es) == [i \in 1 .. Len(es) \div 2 |-> Fx(k, t, es[2 * i - 1], es[2 * i])]
RECURSIVE Tree(_, _, _, _)
Tree(k, t, es, acc) ==      \* acc: levels so far
   IF Len(es) = 1 THEN acc
   ELSE LET n == TLCEval(Up(k, t + 1, es)) IN Tree(k, t + 1, n, Append(acc, n))
FullTree(key, k, xs) == LET e1 == TLCEval(Level1(key, k, xs)) IN Tree(k, 1, e1, <<e1>>)

\* --- matching rule on y of the same table (small enough for TLC integers: y = q * kBC + r)
kB == 119
kC == 127
kBC == kB * kC
\* (ql, rl), (qr, rr): quotient and remainder of y by kBC
Matches(ql, rl, qr, rr) ==
   /\ qr = ql + 1
   /\ \E m \in 0 .. 63 :
        /\ ((rr \div kC) - (rl \div kC)) % kB = m % kB
        /\ ((rr % kC) - (rl % kC)) % kC = ((2 * m + (ql % 2)) * (2 * m + (ql % 2))) % kC
\* remainders on the right that match a remainder rl on the left, for left parity p
Targets(p, rl) == {(((rl \div kC) + m) % kB) * kC + (((2 * m + p) * (2 * m + p) + rl) % kC) : m \in 0 .. 63}
=============================================================================
