------------------------------ MODULE CodecGen ------------------------------
EXTENDS Codec
CONSTANTS BIG, NRAND, PAIRS
ASSUME ndJsonSerialize(IOEnv.OUT, Gen(BIG, NRAND, PAIRS))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
=============================================================================
