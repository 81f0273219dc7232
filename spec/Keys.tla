--------------------------------- MODULE Keys ---------------------------------
(***************************************************************************)
(* How a plot is bound to its owner: memo and id from the farmer's key,    *)
(* the pool's key or contract, the port and a fresh secret.  Key           *)
(* operations are abstract functions; here the toy ones of the stand-in    *)
(* library (a group of integers modulo a prime, functions from SHA-256).   *)
(***************************************************************************)
EXTENDS Sha256
Prime == 998244353
Be4(n) == << (n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256 >>
Le4(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256 >>
Tag(t, m) == Sha256(<<t>> \o m)
KeyGen(seed) == Tag(1, seed)
Child(sk, n) == Tag(2, sk \o Be4(n))
Pub(sk) == LET h == Tag(3, sk) IN ((h[1] % 64) * 16777216 + h[2] * 65536 + h[3] * 256 + h[4]) % Prime
Ser(g) == <<160>> \o Be4(g) \o [j \in 1 .. 43 |-> 17]
Val(b) == ((b[2] * 256 + b[3]) * 256 + b[4]) * 256 + b[5]
Plus(a, b) == (a + b) % Prime
\* --- what must hold ---
Local(master, port) == Child(Child(Child(Child(master, 12381), port), 3), 0)
PlotKey(master, port, farmer, contract) ==
   LET l == Pub(Local(master, port))
       s == Plus(l, Val(farmer))
   IN IF contract THEN Plus(s, Pub(KeyGen(Sha256(Ser(s) \o Ser(l) \o farmer)))) ELSE s
Unique(port, asked) == asked \/ port = 11337
PlotId(master, port, farmer, owner, contract, unique) ==
   LET h == Sha256(owner \o Ser(PlotKey(master, port, farmer, contract))) IN
   IF Unique(port, unique) THEN Sha256(h \o Le4(port)) ELSE h
Memo(owner, farmer, master) == owner \o farmer \o master
\* the puzzle hash in an address: the first 256 bits of its 5-bit symbols
SymBits(s) == [j \in 1 .. 5 * Len(s) |-> (s[((j - 1) \div 5) + 1] \div P2[5 - ((j - 1) % 5)]) % 2]
PuzzleHash(s) == LET b == SymBits(s) IN [j \in 1 .. 32 |-> ByteAt(b, j - 1)]
=============================================================================
