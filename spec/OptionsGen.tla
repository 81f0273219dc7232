------------------------------ MODULE OptionsGen ------------------------------
(* writes the assignments to try and what is to happen with them *)
EXTENDS Options, Json, IOUtils, SequencesExt, TLC
(* values to try *)
KeyForms == {"none", "ok", "short", "long", "nonhex", "odd", "prefix", "point", "empty"}
AddrForms == {"none", "ok", "v0", "size", "sum", "char", "empty"}
IdForms == {"none", "ok", "short", "long", "nonhex", "odd", "tail"}
DirForms == {"none", "ok", "noslash", "missing", "file", "readonly"}
Dom == [k |-> {NoNum, 16, 17, 32, 15, 33, 34, 35, 0, -1, 48}, r |-> {NoNum, 1, 2, 1024, 1025, 0, -3}, m |-> {NoNum, 1, 2, 0, -1}, u |-> {NoNum, 16, 4, 9, 128, 512, 100, 3, 1, 0, -1, 15, 65536, 131072, 131071, 17},
        v |-> {NoNum, 16, 4, 512, 3, 2, 1, 0, -1, -7, 65537, 262144}, p |-> KeyForms, c |-> AddrForms, f |-> KeyForms, i |-> IdForms,
        t |-> DirForms, t2 |-> DirForms, d |-> DirForms, s |-> DirForms, g |-> {0, 1}, nofile |-> {"many", "few"}]
Base == [k |-> 16, r |-> 2, m |-> NoNum, u |-> 16, v |-> NoNum, p |-> "ok", c |-> "none", f |-> "ok", i |-> "none", t |-> "ok", t2 |-> "none", d |-> "none", s |-> "none", g |-> 0, nofile |-> "many"]
BasePool == [Base EXCEPT !.p = "none", !.c = "ok"]
BaseDirs == [Base EXCEPT !.t2 = "ok", !.d = "ok", !.s = "ok"]
\* all assignments that differ from a base in at most two options
Vary(b) == UNION {{[b EXCEPT ![x] = a, ![y] = e] : a \in Dom[x], e \in Dom[y]} : x \in DOMAIN b, y \in DOMAIN b}
Cases == Vary(Base) \cup Vary(BasePool) \cup Vary(BaseDirs)
Out == LET cs == SetToSeq(Cases) IN [j \in 1 .. Len(cs) |-> [o |-> cs[j], v32 |-> Verdict(cs[j], 32), v34 |-> Verdict(cs[j], 34)]]
ASSUME ndJsonSerialize(IOEnv.OUT, Out)
ASSUME \E o \in Cases : Verdict(o, 32) = "start"
\* every single wrong value is refused, whatever else is given
ASSUME \A o \in Cases : (o.f # "ok" \/ o.t # "ok" \/ NotGiven(o.p) = NotGiven(o.c)) => Verdict(o, 34) = "refuse"
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
=============================================================================
