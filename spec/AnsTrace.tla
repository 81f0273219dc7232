------------------------------- MODULE AnsTrace -------------------------------
(***************************************************************************)
(* Recorded compressions.  [kind "ans", t, d, res, b]: the compressor for  *)
(* table t on deltas d: res "ok" with the bytes b, or "error".             *)
(* Zero bytes means "not compressed": allowed for any input (the caller    *)
(* must then store the deltas as they are).                                *)
(* [kind "park", t, k, d, res, b]: a park slot holding deltas d with first *)
(* line point 0 and stubs 0; b the whole slot                              *)
(***************************************************************************)
EXTENDS Ans
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, ph
Init == c \in 1 .. Len(Cases) /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, ph>>
MaxD(d) == FoldLeft(LAMBDA a, x : IF x > a THEN x ELSE a, 0, d)
\* line-point and stub bytes in front of the deltas
FrontBytes(k) == ((2 * k + 7) \div 8) + ((2047 * (k - 3) + 7) \div 8)
Right == (ph = 1) =>
  LET r == Cases[c] IN
  CASE r.kind = "ans" ->
        IF r.res = "ok" THEN Len(r.b) = 0 \/ Decode(r.t, r.b, 0, Len(r.b), Len(r.d) + 3) = r.d
        ELSE r.res = "error" /\ MaxD(r.d) > MaxSymbol(r.t)       \* only what has no code may be refused
    [] r.kind = "park" ->
        IF r.res = "error" THEN r.must = 0
        ELSE /\ r.res = "ok"
             /\ LET o == FrontBytes(r.k)
                    w == r.b[o + 1] + 256 * r.b[o + 2]
                    sz == w % 32768
                IN /\ o + 2 + sz <= Len(r.b)
                   /\ IF w >= 32768 THEN SubSeq(r.b, o + 3, o + 2 + sz) = r.d
                      ELSE Decode(r.t, r.b, o + 2, sz, Len(r.d) + 3) = r.d
                   /\ \A i \in 1 .. o : r.b[i] = 0
                   /\ \A i \in o + 3 + sz .. Len(r.b) : r.b[i] = 0
    [] OTHER -> FALSE
=============================================================================
