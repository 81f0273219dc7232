------------------------------ MODULE PoolTrace ------------------------------
EXTENDS Pool, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l, s
Brief == [t |-> t, l |-> l, s |-> [ok |-> s.ok, why |-> s.why]]        \* what counterexamples show
vars == <<t, l, s>>

Init == /\ t \in 1 .. Len(Traces)
        /\ l = 1
        /\ s = PoolInit(Traces[t].n, Traces[t].out = 1)

Next == /\ l <= Len(Traces[t].ev)
        /\ s.ok
        /\ s' = PoolStep(s, Traces[t].ev[l])
        /\ l' = l + 1
        /\ t' = t

Accepted == s.ok
Complete == (l > Len(Traces[t].ev)) => s.done
Spec == Init /\ [][Next]_vars
=============================================================================
