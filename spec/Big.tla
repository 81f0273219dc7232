---------------------------------- MODULE Big ----------------------------------
(* Numbers beyond TLC's 32-bit integers: little-endian sequences of base-4096 limbs, all of the same length. *)
EXTENDS Integers, Sequences, TLC
BB == 4096
\* carry propagation over n limbs (inputs may be up to 2^30 or negative; the result must be in range)
Norm(x) == LET RECURSIVE Go(_, _, _)
               Go(i, c, acc) == IF i > Len(x) THEN acc
                                ELSE LET v == x[i] + c IN Go(i + 1, v \div BB, Append(acc, v % BB))
           IN Go(1, 0, <<>>)
BAdd(a, b) == Norm([i \in 1 .. Len(a) |-> a[i] + b[i]])
BSub(a, b) == Norm([i \in 1 .. Len(a) |-> a[i] - b[i]])
BInt(v, n) == Norm([i \in 1 .. n |-> IF i = 1 THEN v ELSE 0])
RECURSIVE BSum(_, _, _, _, _)
BSum(a, b, i, j, acc) == IF j > i THEN acc ELSE BSum(a, b, i, j + 1, acc + a[j] * b[i - j + 1])
BMul(a, b) == Norm([i \in 1 .. Len(a) |-> BSum(a, b, i, 1, 0)])
BHalf(a) == [i \in 1 .. Len(a) |-> (a[i] \div 2) + (IF i < Len(a) THEN (a[i + 1] % 2) * 2048 ELSE 0)]
RECURSIVE BLtAt(_, _, _)
BLtAt(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE BLtAt(a, b, i - 1)
BLt(a, b) == BLtAt(a, b, Len(a))
BLe(a, b) == ~BLt(b, a)
\* the line point of two positions: x(x-1)/2 + y with x the larger one
LinePoint(a, b) == LET x == IF BLt(a, b) THEN b ELSE a
                       y == IF BLt(a, b) THEN a ELSE b
                       z == [i \in 1 .. Len(x) |-> 0]
                   IN IF x = z THEN y ELSE BAdd(BHalf(BMul(x, BSub(x, BInt(1, Len(x))))), y)
=============================================================================
