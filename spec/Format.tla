-------------------------------- MODULE Format --------------------------------
(***************************************************************************)
(* The published plot format: parks of line points (tables 1..6), parks of *)
(* final positions (P7), checkpoint tables (C1, C2, C3), header.  Byte     *)
(* strings are sequences of 0..255, bits count from the most significant.  *)
(***************************************************************************)
EXTENDS Ans, Big, FiniteSets

\* entries per park (a build under test may be scaled down)
EPP == IF "VERIF_EPP" \in DOMAIN IOEnv THEN atoi(IOEnv.VERIF_EPP) ELSE 2048
CI == 10000              \* final values per checkpoint
NL == 6                  \* limbs of a line point
ByteLen(bits) == (bits + 7) \div 8
LPSize(k) == ByteLen(2 * k)
StubsSize(k) == ByteLen((EPP - 1) * (k - 3))
\* 5.6 bits per delta in the first table, 3.5 in the others (cut off to whole bits, as published)
DeltasSize(t) == ByteLen(IF t = 1 THEN ((EPP - 1) * 56) \div 10 ELSE ((EPP - 1) * 35) \div 10)
ParkSize(k, t) == LPSize(k) + StubsSize(k) + DeltasSize(t)
P7Size(k) == ByteLen((k + 1) * EPP)
C3Size(k) == IF k < 20 THEN CI ELSE ByteLen((CI * 24) \div 10)

P2L == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304, 8388608, 16777216>>
At(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
\* n <= 16 bits starting at bit s of b
Slice(b, s, n) == LET i == (s \div 8) + 1
                      v == At(b, i) * 65536 + At(b, i + 1) * 256 + At(b, i + 2)
                  IN (v \div P2L[24 - (s % 8) - n + 1]) % P2L[n + 1]
\* n bits starting at bit s as limbs
SliceBig(b, s, n) == [l \in 1 .. NL |-> LET hi == n - 12 * (l - 1) IN
                        IF hi <= 0 THEN 0 ELSE IF hi >= 12 THEN Slice(b, s + hi - 12, 12) ELSE Slice(b, s, hi)]
\* a small number (< 2^18) times 2^sh
ShlBig(v, sh) == Norm([l \in 1 .. NL |-> IF l = (sh \div 12) + 1 THEN v * P2L[(sh % 12) + 1] ELSE 0])

\* the deltas of the park at byte offset o holding n line points; BAD if not decodable
ParkDeltas(b, o, k, t, n) ==
  LET d == o + LPSize(k) + StubsSize(k)
      w == b[d + 1] + 256 * b[d + 2]
      sz == w % 32768
  IN IF d + 2 + sz > o + ParkSize(k, t) THEN BAD
     ELSE IF w >= 32768 THEN (IF sz = n - 1 THEN SubSeq(b, d + 3, d + 2 + sz) ELSE BAD)
     ELSE LET r == Decode(t, b, d + 2, sz, n + 2) IN IF Len(r) = n - 1 THEN r ELSE BAD
BADP == <<BAD>>
\* the n line points of the park; BADP if not decodable
Park(b, o, k, t, n) ==
  LET ds == ParkDeltas(b, o, k, t, n)
      so == 8 * (o + LPSize(k))
  IN IF ds = BAD THEN BADP
     ELSE FoldLeft(LAMBDA acc, i : Append(acc, BAdd(acc[Len(acc)], BAdd(ShlBig(ds[i], k - 3), SliceBig(b, so + (i - 1) * (k - 3), k - 3)))),
                   <<SliceBig(b, 8 * o, 2 * k)>>, [i \in 1 .. n - 1 |-> i])
NumParks(n) == (n + EPP - 1) \div EPP
\* all parks of a table of n line points that starts at byte o
Table(b, o, k, t, n) ==
  FoldLeft(LAMBDA acc, p : IF acc = BADP THEN BADP
              ELSE LET r == Park(b, o + (p - 1) * ParkSize(k, t), k, t, IF p * EPP <= n THEN EPP ELSE n - (p - 1) * EPP)
                   IN IF r = BADP THEN BADP ELSE acc \o r, <<>>, [p \in 1 .. NumParks(n) |-> p])
=============================================================================
