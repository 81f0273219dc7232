-------------------------------- MODULE Sha256 --------------------------------
(* SHA-256 (FIPS 180-4) on sequences of bytes, words as <<hi16, lo16>>. *)
EXTENDS Words, SequencesExt
LOCAL Hex(h, l) == <<h, l>>
K256 == << <<17034,12184>>, <<28983,17553>>, <<46528,64463>>, <<59829,56229>>, <<14678,49755>>, <<23025,4593>>, <<37439,33444>>, <<43804,24277>>, <<55303,43672>>, <<4739,23297>>, <<9265,34238>>, <<21772,32195>>, <<29374,23924>>, <<32990,45566>>, <<39900,1703>>, <<49563,61812>>, <<58523,27073>>, <<61374,18310>>, <<4033,40390>>, <<9228,41420>>, <<11753,11375>>, <<19060,33962>>, <<23728,43484>>, <<30457,35034>>, <<38974,20818>>, <<43057,50797>>, <<45059,10184>>, <<48985,32711>>, <<50912,3059>>, <<54695,37191>>, <<1738,25425>>, <<5161,10599>>, <<10167,2693>>, <<11803,8504>>, <<19756,28156>>, <<21304,3347>>, <<25866,29524>>, <<30314,2747>>, <<33218,51502>>, <<37490,11397>>, <<41663,59553>>, <<43034,26187>>, <<49739,35696>>, <<51052,20899>>, <<53650,59417>>, <<54937,1572>>, <<62478,13701>>, <<4202,41072>>, <<6564,49430>>, <<7735,27656>>, <<10056,30540>>, <<13488,48309>>, <<14620,3251>>, <<20184,43594>>, <<23452,51791>>, <<26670,28659>>, <<29839,33518>>, <<30885,25455>>, <<33992,30740>>, <<36039,520>>, <<37054,65530>>, <<42064,27883>>, <<48889,41975>>, <<50801,30962>> >>
H256 == << <<27145,58983>>, <<47975,44677>>, <<15470,62322>>, <<42319,62778>>, <<20750,21119>>, <<39685,26764>>, <<8067,55723>>, <<23520,52505>> >>
Ror(a, n) == IF n >= 16 THEN LET b == <<a[2], a[1]>>  m == n - 16 IN
                 (IF m = 0 THEN b ELSE <<(b[1] \div P2[m + 1]) + (b[2] % P2[m + 1]) * P2[17 - m], (b[2] \div P2[m + 1]) + (b[1] % P2[m + 1]) * P2[17 - m]>>)
             ELSE <<(a[1] \div P2[n + 1]) + (a[2] % P2[n + 1]) * P2[17 - n], (a[2] \div P2[n + 1]) + (a[1] % P2[n + 1]) * P2[17 - n]>>
Shr(a, n) == <<a[1] \div P2[n + 1], (a[2] \div P2[n + 1]) + (a[1] % P2[n + 1]) * P2[17 - n]>>     \* n < 16
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
WNot(a) == <<65535 - a[1], 65535 - a[2]>>
X3(a, b, c) == WXor(WXor(a, b), c)
LOCAL Zeros(n) == [z \in 1 .. n |-> 0]
Pad(m) == LET n == Len(m)
              z == (55 - n) % 64
          IN m \o <<128>> \o Zeros(z) \o Zeros(4) \o << ((n * 8) \div 16777216) % 256, ((n * 8) \div 65536) % 256, ((n * 8) \div 256) % 256, (n * 8) % 256 >>
\* (folds: TLC evaluates their accumulators strictly)
I64 == [i \in 1 .. 64 |-> i]
Extend(w, i) ==
   LET a == w[i - 15]
       b == w[i - 2]
       s0 == TLCEval(X3(Ror(a, 7), Ror(a, 18), Shr(a, 3)))
       s1 == TLCEval(X3(Ror(b, 17), Ror(b, 19), Shr(b, 10)))
   IN Append(w, WAdd(WAdd(w[i - 16], s0), WAdd(w[i - 7], s1)))
Sched(m, o) == FoldLeft(Extend, [i \in 1 .. 16 |-> <<m[o + 4 * i - 3] * 256 + m[o + 4 * i - 2], m[o + 4 * i - 1] * 256 + m[o + 4 * i]>>], SubSeq(I64, 17, 64))
Round256(v, k, w) ==
   LET e == v[5]
       a == v[1]
       s1 == TLCEval(X3(Ror(e, 6), Ror(e, 11), Ror(e, 25)))
       ch == TLCEval(WXor(WAnd(e, v[6]), WAnd(WNot(e), v[7])))
       t1 == TLCEval(WAdd(WAdd(WAdd(v[8], s1), ch), WAdd(k, w)))
       s0 == TLCEval(X3(Ror(a, 2), Ror(a, 13), Ror(a, 22)))
       mj == TLCEval(X3(WAnd(a, v[2]), WAnd(a, v[3]), WAnd(v[2], v[3])))
       t2 == TLCEval(WAdd(s0, mj))
   IN <<WAdd(t1, t2), a, v[2], v[3], WAdd(v[4], t1), e, v[6], v[7]>>
Block256(h, w) == LET r == FoldLeft(LAMBDA v, i : Round256(v, K256[i], w[i]), h, I64) IN [i \in 1 .. 8 |-> WAdd(h[i], r[i])]
Sha256(m) ==
   LET p == TLCEval(Pad(m))
       r == FoldLeft(LAMBDA h, b : LET w == TLCEval(Sched(p, 64 * (b - 1))) IN Block256(h, w), H256, [b \in 1 .. (Len(p) \div 64) |-> b])
   IN TLCEval([j \in 1 .. 32 |-> LET w == r[(j + 3) \div 4]  b == (j - 1) % 4 IN
        CASE b = 0 -> w[1] \div 256 [] b = 1 -> w[1] % 256 [] b = 2 -> w[2] \div 256 [] b = 3 -> w[2] % 256])
\* "abc"
ASSUME Sha256(<<97, 98, 99>>) = <<186,120,22,191,143,1,207,234,65,65,64,222,93,174,34,35,176,3,97,163,150,23,122,156,180,16,255,97,242,0,21,173>>
=============================================================================
