------------------------------- MODULE Blake3 -------------------------------
(* BLAKE3 of at most 64 bytes (one block, one chunk, root) *)
EXTENDS Words
B3IV == << <<27145,58983>>, <<47975,44677>>, <<15470,62322>>, <<42319,62778>>, <<20750,21119>>, <<39685,26764>>, <<8067,55723>>, <<23520,52505>> >>
B3Perm == <<3,7,4,11,8,1,5,14,2,12,13,6,10,15,16,9>>
B3G(v, a, b, c, d, x, y) ==
  LET a1 == WAdd(WAdd(v[a], v[b]), x)
      d1 == R16(WXor(v[d], a1))
      c1 == WAdd(v[c], d1)
      b1 == R12(WXor(v[b], c1))
      a2 == WAdd(WAdd(a1, b1), y)
      d2 == R8(WXor(d1, a2))
      c2 == WAdd(c1, d2)
      b2 == R7(WXor(b1, c2))
  IN [v EXCEPT ![a] = a2, ![b] = b2, ![c] = c2, ![d] = d2]
B3Round(v, m) ==
  LET v1 == B3G(v, 1, 5, 9, 13, m[1], m[2])
      v2 == B3G(v1, 2, 6, 10, 14, m[3], m[4])
      v3 == B3G(v2, 3, 7, 11, 15, m[5], m[6])
      v4 == B3G(v3, 4, 8, 12, 16, m[7], m[8])
      v5 == B3G(v4, 1, 6, 11, 16, m[9], m[10])
      v6 == B3G(v5, 2, 7, 12, 13, m[11], m[12])
      v7 == B3G(v6, 3, 8, 9, 14, m[13], m[14])
  IN B3G(v7, 4, 5, 10, 15, m[15], m[16])
RECURSIVE B3Rounds(_, _, _)
B3Rounds(v, m, n) == IF n = 0 THEN v
   ELSE LET v1 == B3Round(v, m)
            m1 == [i \in 1 .. 16 |-> m[B3Perm[i]]]
        IN B3Rounds(TLCEval(v1), TLCEval(m1), n - 1)
\* m: 16 words, len: bytes; flags CHUNK_START | CHUNK_END | ROOT
B3Hash(m, len) ==
  LET v0 == B3IV \o SubSeq(B3IV, 1, 4) \o << <<0,0>>, <<0,0>>, <<0,len>>, <<0,11>> >>
      v == B3Rounds(v0, m, 7)
  IN [i \in 1 .. 8 |-> WXor(v[i], v[i + 8])]
\* hash of a bit string, zero padded to bytes, as a 256-bit string
B3Bits(b) ==
  LET n == (Len(b) + 7) \div 8
      by == TLCEval([i \in 1 .. 64 |-> IF i <= n THEN ByteAt(b, i - 1) ELSE 0])
      m == TLCEval([w \in 1 .. 16 |-> <<by[4 * w - 1] + 256 * by[4 * w], by[4 * w - 3] + 256 * by[4 * w - 2]>>])
  IN WordsBits(TLCEval(B3Hash(m, n)))
=============================================================================
