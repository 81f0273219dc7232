---------------------------------- MODULE AnsBuild ----------------------------------
(***************************************************************************)
(* The published entropy code of the plot format (two interleaved tANS     *)
(* states, 14-bit tables): construction of the decoding tables from the    *)
(* symbol frequencies.  TLC writes them to the file that module Ans reads  *)
(* (constants of this size are otherwise evaluated once per worker).       *)
(***************************************************************************)
EXTENDS AnsTables, FiniteSets, TLC, SequencesExt, Json, IOUtils

TL == 14
TS == 16384
STEP == TS \div 2 + TS \div 8 + 3
INV == 683          \* STEP * INV = 1 modulo TS
ASSUME (STEP * INV) % TS = 1
Pow == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
HighBit == [v \in 1 .. TS |-> CHOOSE i \in 0 .. TL : Pow[i + 1] <= v /\ v < 2 * Pow[i + 1]]
\* one element per quantum, in symbol order
Flat(cnt) == FoldLeft(LAMBDA acc, s : IF cnt[s] > 0 THEN acc \o [i \in 1 .. cnt[s] |-> s - 1] ELSE acc, <<>>, [s \in 1 .. Len(cnt) |-> s])
Low(cnt) == SelectSeq([s \in 1 .. Len(cnt) |-> s - 1], LAMBDA s : cnt[s + 1] = -1)
\* symbol of each cell 0..TS-1 (index + 1)
Symbols(cnt) ==
  LET low == Low(cnt)
      top == TS - Len(low)                       \* cells >= top hold the rare symbols, first one at the very end
      flat == Flat(cnt)
      \* the i-th cell visited is (i * STEP) % TS; skip[i + 1]: visited before it but reserved
      skip == FoldLeft(LAMBDA acc, i : Append(acc, acc[Len(acc)] + (IF ((i - 1) * STEP) % TS >= top THEN 1 ELSE 0)), <<0>>, [i \in 1 .. TS |-> i])
      Visit(p) == (p * INV) % TS
  IN [p \in 1 .. TS |-> IF p > top THEN low[TS - p + 1] ELSE LET i == Visit(p - 1) IN flat[i + 1 - skip[i + 1]]]
\* symbol + 256 * number of bits + 4096 * base of the next state, per cell
DTable(cnt) ==
  LET sym == Symbols(cnt)
      first == [s \in 0 .. Len(cnt) - 1 |-> IF cnt[s + 1] = -1 THEN 1 ELSE cnt[s + 1]]
      r == FoldLeft(LAMBDA acc, p : LET s == sym[p]  x == acc[1][s] IN
              <<[acc[1] EXCEPT ![s] = @ + 1], Append(acc[2], s + 256 * (TL - HighBit[x]) + 4096 * (x * Pow[TL - HighBit[x] + 1] - TS))>>,
              <<first, <<>>>>, [p \in 1 .. TS |-> p])
  IN r[2]
\* the tables are complete: all quanta are used
ASSUME \A t \in 1 .. 7 : FoldLeft(LAMBDA a, x : a + (IF x = -1 THEN 1 ELSE x), 0, Counts[t]) = TS
ASSUME ndJsonSerialize(IOEnv.ANSTAB, <<DTable(C_a), DTable(C_b), DTable(C_c), DTable(C_d), DTable(C_e), DTable(C_f)>>)
VARIABLE x
Spec == x = 0 /\ [][x' = x]_x
=============================================================================
