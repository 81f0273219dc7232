--------------------------------- MODULE Plot ---------------------------------
(***************************************************************************)
(* A complete plot file: header, section layout, and what its answers mean *)
(* (Format: parks and checkpoint tables, PoSpace: the proofs themselves).  *)
(***************************************************************************)
EXTENDS Format

CDiv(a, b) == (a + b - 1) \div b
\* n <= 40 bits at bit s as <<bits above 16, low 16 bits>>
Num(b, s, n) == <<IF n - 16 <= 16 THEN Slice(b, s, n - 16) ELSE Slice(b, s, n - 32) * 65536 + Slice(b, s + n - 32, 16), Slice(b, s + n - 16, 16)>>
Plus(y, d) == LET l == y[2] + d IN <<y[1] + (l \div 65536), l % 65536>>
C3Bytes(k, ci) == IF k < 20 THEN ci ELSE ByteLen((ci * 24) \div 10)
Zero(b, o, n) == \A i \in o + 1 .. o + n : b[i] = 0
\* deltas of a checkpoint park with m values behind the checkpoint
C3Park(b, o, size, m) ==
  LET sz == b[o + 1] * 256 + b[o + 2] IN
  IF sz + 2 > size THEN BAD
  ELSE IF sz = 0 THEN (IF m = 0 THEN <<>> ELSE BAD)
  ELSE LET r == Decode(7, b, o + 2, sz, m + 6)
       IN IF r = BAD \/ Len(r) < m \/ (\E i \in m + 1 .. Len(r) : r[i] # 0) THEN BAD ELSE SubSeq(r, 1, m)
\* all final values, checkpoint by checkpoint
Values(b, oC1, oC3, k, ci, c3, n) ==
  FoldLeft(LAMBDA acc, i :
     IF acc = BADP THEN BADP
     ELSE LET first == Num(b, 8 * (oC1 + (i - 1) * ByteLen(k)), k)
              m == (IF i * ci <= n THEN ci ELSE n - (i - 1) * ci) - 1
              d == C3Park(b, oC3 + (i - 1) * c3, c3, m)
          IN IF d = BAD THEN BADP ELSE acc \o FoldLeft(LAMBDA a, x : Append(a, Plus(a[Len(a)], x)), <<first>>, d),
     <<>>, [i \in 1 .. CDiv(n, ci) |-> i])
Ordered(v) == \A i \in 1 .. Len(v) - 1 : v[i][1] < v[i + 1][1] \/ (v[i][1] = v[i + 1][1] /\ v[i][2] <= v[i + 1][2])
\* position i (1..) in the P7 table at offset o
P7At(b, o, k, epp, i) == Num(b, 8 * (o + ((i - 1) \div epp) * ByteLen((k + 1) * epp)) + ((i - 1) % epp) * (k + 1), k + 1)
\* layout of the final section for n values: offsets of C1, C2, C3 and the end relative to the P7 table
FinC1(k, epp, n) == (IF n = 0 THEN 1 ELSE CDiv(n, epp)) * ByteLen((k + 1) * epp)
FinC2(k, epp, ci, n) == FinC1(k, epp, n) + (CDiv(n, ci) + 1) * ByteLen(k)
FinC3(k, epp, ci, c2, n) == FinC2(k, epp, ci, n) + (CDiv(CDiv(n, ci), c2) + 1) * ByteLen(k)
FinEnd(k, epp, ci, c2, n) == FinC3(k, epp, ci, c2, n) + CDiv(n, ci) * C3Bytes(k, ci)

\* ---- header
Magic == <<80, 114, 111, 111, 102, 32, 111, 102, 32, 83, 112, 97, 99, 101, 32, 80, 108, 111, 116>>      \* "Proof of Space Plot"
FormatName == <<118, 49, 46, 48>>                                                                        \* "v1.0"
Be2(n) == <<n \div 256, n % 256>>
HeaderFields(id, k, memo) == Magic \o id \o <<k>> \o Be2(Len(FormatName)) \o FormatName \o Be2(Len(memo)) \o memo
HeaderLen(memo) == 60 + Len(memo) + 80
\* pointer i (1..10) of a header h; pointers above 2^31 do not occur in checked plots
Pointer(h, memo, i) == LET o == 60 + Len(memo) + 8 * (i - 1) IN
   IF h[o + 1] # 0 \/ h[o + 2] # 0 \/ h[o + 3] # 0 \/ h[o + 4] # 0 \/ h[o + 5] >= 64 THEN -1
   ELSE ((h[o + 5] * 256 + h[o + 6]) * 256 + h[o + 7]) * 256 + h[o + 8]
HeaderRight(h, id, k, memo, n, size) ==
  /\ Len(h) = HeaderLen(memo)
  /\ SubSeq(h, 1, 60 + Len(memo)) = HeaderFields(id, k, memo)
  /\ Pointer(h, memo, 1) = HeaderLen(memo)
  /\ \A t \in 1 .. 6 : LET d == Pointer(h, memo, t + 1) - Pointer(h, memo, t) IN d > 0 /\ d % ParkSize(k, t) = 0
  \* table 6 has as many line points as there are final values
  /\ Pointer(h, memo, 7) - Pointer(h, memo, 6) = NumParks(n) * ParkSize(k, 6)
  /\ Pointer(h, memo, 8) - Pointer(h, memo, 7) = FinC1(k, EPP, n)
  /\ Pointer(h, memo, 9) - Pointer(h, memo, 7) = FinC2(k, EPP, CI, n)
  /\ Pointer(h, memo, 10) - Pointer(h, memo, 7) = FinC3(k, EPP, CI, CI, n)
  /\ size = Pointer(h, memo, 7) + FinEnd(k, EPP, CI, CI, n)
=============================================================================
