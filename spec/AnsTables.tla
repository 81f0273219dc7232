----------------------------- MODULE AnsTables -----------------------------
(* The published code: normalised symbol frequencies (14-bit quanta) of the delta distributions, one per table; -1: below one quantum.
   Written by tools/ans_counts.py, an independent implementation of the published derivation. *)
EXTENDS Integers, Sequences
C_a == LET h == <<1504, 2811, 2273, 1837, 1485, 1200, 970, 784, 634, 512, 414, 335, 271, 219, 177, 143, 116, 93, 76, 61, 49, 40, 32, 26, 21, 17, 14, 11, 9, 7, 6, 5, 4, 3, 3, 2, 2>> IN [i \in 1 .. 255 |-> IF i <= Len(h) THEN h[i] ELSE -1]     \* R = 4.7
C_b == LET h == <<2482, 4169, 2898, 2015, 1400, 973, 677, 470, 327, 227, 158, 110, 76, 53, 37, 26, 18, 12, 9, 6, 4, 3, 2>> IN [i \in 1 .. 255 |-> IF i <= Len(h) THEN h[i] ELSE -1]     \* R = 2.75
C_c == LET h == <<2524, 4219, 2913, 2011, 1389, 959, 662, 457, 316, 218, 151, 104, 72, 50, 34, 24, 16, 11, 8, 5, 4, 3, 2>> IN [i \in 1 .. 255 |-> IF i <= Len(h) THEN h[i] ELSE -1]     \* R = 2.7
C_d == LET h == <<2613, 4324, 2943, 2004, 1364, 928, 632, 430, 293, 199, 136, 92, 63, 43, 29, 20, 14, 9, 6, 4, 3, 2>> IN [i \in 1 .. 255 |-> IF i <= Len(h) THEN h[i] ELSE -1]     \* R = 2.6
C_e == LET h == <<2758, 4489, 2985, 1985, 1319, 877, 583, 388, 258, 171, 114, 76, 50, 34, 22, 15, 10, 7, 4, 3, 2>> IN [i \in 1 .. 255 |-> IF i <= Len(h) THEN h[i] ELSE -1]     \* R = 2.45
C_f == LET h == <<5989, 6505, 2393, 880, 324, 119, 44, 16, 6, 2>> IN [i \in 1 .. 116 |-> IF i <= Len(h) THEN h[i] ELSE -1]     \* R = 1.0
\* table 1..6: line-point deltas of that table; 7: deltas of final values
Counts == <<C_a, C_b, C_b, C_c, C_d, C_e, C_f>>
=============================================================================
