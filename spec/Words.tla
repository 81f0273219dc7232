-------------------------------- MODULE Words --------------------------------
(***************************************************************************)
(* Words and bit strings for the proof-of-space definition.  TLC integers  *)
(* are 32-bit signed: a 32-bit word is <<hi16, lo16>>, a larger number is  *)
(* a little-endian sequence of 16-bit limbs, a bit string is a sequence of *)
(* 0/1, most significant bit first.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, TLC

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>   \* P2[i + 1] = 2^i

WAdd(a, b) == LET l == a[2] + b[2] IN <<(a[1] + b[1] + (l \div 65536)) % 65536, l % 65536>>
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
\* rotations
R16(a) == <<a[2], a[1]>>
R12(a) == <<(a[1] \div 4096) + (a[2] % 4096) * 16, (a[2] \div 4096) + (a[1] % 4096) * 16>>
R8(a)  == <<(a[1] \div 256) + (a[2] % 256) * 256, (a[2] \div 256) + (a[1] % 256) * 256>>
R7(a)  == <<(a[1] \div 128) + (a[2] % 128) * 512, (a[2] \div 128) + (a[1] % 128) * 512>>
RL7(a) == <<((a[1] * 128) % 65536) + (a[2] \div 512), ((a[2] * 128) % 65536) + (a[1] \div 512)>>
RL8(a) == <<((a[1] * 256) % 65536) + (a[2] \div 256), ((a[2] * 256) % 65536) + (a[1] \div 256)>>
RL12(a) == <<((a[1] * 4096) % 65536) + (a[2] \div 16), ((a[2] * 4096) % 65536) + (a[1] \div 16)>>

\* bit string of the low n bits of a number given as limbs
LimbBits(x, n) == [j \in 1 .. n |-> LET p == n - j IN (x[(p \div 16) + 1] \div P2[(p % 16) + 1]) % 2]
\* ... and of a small number
IntBits(v, n) == [j \in 1 .. n |-> IF n - j > 30 THEN 0 ELSE (v \div (2 ^ (n - j))) % 2]
\* limbs of a bit string (as many as needed, at least one)
BitsLimbs(b, nl) == [i \in 1 .. nl |->
   LET hi == Len(b) - 16 * (i - 1)
       RECURSIVE S(_, _)
       S(j, acc) == IF j > 15 \/ hi - j < 1 THEN acc ELSE S(j + 1, acc + b[hi - j] * P2[j + 1])
   IN S(0, 0)]
\* byte i (0-based) of a bit string padded with zeros
BitAt(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
ByteAt(b, i) == LET o == 8 * i IN
   128 * BitAt(b, o + 1) + 64 * BitAt(b, o + 2) + 32 * BitAt(b, o + 3) + 16 * BitAt(b, o + 4)
   + 8 * BitAt(b, o + 5) + 4 * BitAt(b, o + 6) + 2 * BitAt(b, o + 7) + BitAt(b, o + 8)
\* bit string of a sequence of words, each word little endian
WordsBits(ws) == [j \in 1 .. 32 * Len(ws) |->
   LET w == ws[((j - 1) \div 32) + 1]
       by == ((j - 1) % 32) \div 8          \* byte 0..3 of the word, 0 = lowest
       bi == 7 - ((j - 1) % 8)
       half == IF by < 2 THEN w[2] ELSE w[1]
   IN (half \div P2[8 * (by % 2) + bi + 1]) % 2]
\* limbs (little endian) times a small factor (< 2^14), nl limbs
MulSmall(x, f, nl) ==
   LET RECURSIVE Go(_, _, _)
       Go(i, c, acc) == IF i > nl THEN acc
                        ELSE LET v == (IF i <= Len(x) THEN x[i] * f ELSE 0) + c IN Go(i + 1, v \div 65536, Append(acc, v % 65536))
   IN Go(1, 0, <<>>)
AddSmall(x, a) ==
   LET RECURSIVE Go(_, _, _)
       Go(i, c, acc) == IF i > Len(x) THEN acc ELSE LET v == x[i] + c IN Go(i + 1, v \div 65536, Append(acc, v % 65536))
   IN Go(1, a, <<>>)
\* limbs shifted right by n (< 16) bits
ShrSmall(x, n) == [i \in 1 .. Len(x) |-> (x[i] \div P2[n + 1]) + (IF i < Len(x) THEN (x[i + 1] % P2[n + 1]) * P2[16 - n + 1] ELSE 0)]
=============================================================================
