------------------------------- MODULE ChaCha8 -------------------------------
(* ChaCha with 8 rounds, 256-bit key, zero nonce, 64-bit block counter *)
EXTENDS Words
CCSigma == << <<24944, 30821>>, <<13088, 25710>>, <<31074, 11570>>, <<27424, 25972>> >>
CCQ(v, a, b, c, d) ==
  LET a1 == WAdd(v[a], v[b])
      d1 == R16(WXor(v[d], a1))
      c1 == WAdd(v[c], d1)
      b1 == RL12(WXor(v[b], c1))
      a2 == WAdd(a1, b1)
      d2 == RL8(WXor(d1, a2))
      c2 == WAdd(c1, d2)
      b2 == RL7(WXor(b1, c2))
  IN [v EXCEPT ![a] = a2, ![b] = b2, ![c] = c2, ![d] = d2]
CCDouble(v) ==
  LET v1 == CCQ(v, 1, 5, 9, 13)
      v2 == CCQ(v1, 2, 6, 10, 14)
      v3 == CCQ(v2, 3, 7, 11, 15)
      v4 == CCQ(v3, 4, 8, 12, 16)
      v5 == CCQ(v4, 1, 6, 11, 16)
      v6 == CCQ(v5, 2, 7, 12, 13)
      v7 == CCQ(v6, 3, 8, 9, 14)
  IN CCQ(v7, 4, 5, 10, 15)
RECURSIVE CCRounds(_, _)
CCRounds(v, n) == IF n = 0 THEN v ELSE CCRounds(TLCEval(CCDouble(v)), n - 1)
\* key: 8 words; ctr: four 16-bit limbs, little endian.  Result: 16 words
CCBlock(key, ctr) ==
  LET v0 == CCSigma \o key \o << <<ctr[2], ctr[1]>>, <<ctr[4], ctr[3]>>, <<0, 0>>, <<0, 0>> >>
      v == CCRounds(v0, 4)
  IN [i \in 1 .. 16 |-> WAdd(v[i], v0[i])]
CCKey(bytes) == [w \in 1 .. 8 |-> <<bytes[4 * w - 1] + 256 * bytes[4 * w], bytes[4 * w - 3] + 256 * bytes[4 * w - 2]>>]
=============================================================================
