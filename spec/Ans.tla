---------------------------------- MODULE Ans ----------------------------------
(* Decoding with the published entropy code; the tables come from AnsBuild. *)
EXTENDS AnsTables, TLC, SequencesExt, Json, IOUtils
TL == 14
Pow == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
DT == ndJsonDeserialize(IOEnv.ANSTAB)
Tab(t) == DT[<<1, 2, 2, 3, 4, 5, 6>>[t]]
\* n bits (n <= 15) ending below bit position p (bits numbered from the low bit of byte b[o + 1] on, o: offset of the string)
GetBits(b, o, p, n) == LET lo == p - n
                           by == o + (lo \div 8)
                           v == b[by + 1] + 256 * (IF by + 1 < Len(b) THEN b[by + 2] ELSE 0)
                                + 65536 * (IF by + 2 < Len(b) THEN b[by + 3] ELSE 0)
                       IN (v \div Pow[(lo % 8) + 1]) % Pow[n + 1]
BAD == <<-1>>
\* decode sz bytes of b starting at offset o; at most max symbols.  BAD if the string is not a code word.
Decode(t, b, o, sz, max) ==
  LET last == b[o + sz]
  IN IF sz < 4 \/ last = 0 THEN BAD
     ELSE LET D == Tab(t)
              hb == CHOOSE i \in 0 .. 7 : Pow[i + 1] <= last /\ last < 2 * Pow[i + 1]
              p0 == 8 * (sz - 1) + hb                       \* position of the end mark
              s1 == GetBits(b, o, p0, TL)
              s2 == GetBits(b, o, p0 - TL, TL)
              \* acc: <<position left, state to use now, other state, symbols, 0 running | 1 done | 2 bad>>
              Stp(acc, i) ==
                IF acc[5] # 0 THEN acc
                ELSE LET e == D[acc[2] + 1]
                         d == <<e % 256, (e \div 256) % 16, e \div 4096>> IN
                     IF d[2] > acc[1]      \* runs out of bits: this symbol and the one of the other state are the last
                     THEN IF acc[1] # 0 THEN [acc EXCEPT ![5] = 2]
                          ELSE [acc EXCEPT ![4] = Append(Append(acc[4], d[1]), D[acc[3] + 1] % 256), ![5] = 1]
                     ELSE <<acc[1] - d[2], acc[3], d[3] + GetBits(b, o, acc[1], d[2]), Append(acc[4], d[1]), 0>>
          IN IF p0 < 2 * TL THEN BAD
             ELSE LET r == FoldLeft(Stp, <<p0 - 2 * TL, s1, s2, <<>>, 0>>, [i \in 1 .. max - 1 |-> i])
                  IN IF r[5] = 1 THEN r[4] ELSE BAD
MaxSymbol(t) == Len(Counts[t]) - 1
=============================================================================
