------------------------------ MODULE StageTrace ------------------------------
(* Validation of executions recorded from the real Thread class: every trace  *)
(* of the input file must be accepted by the Stage monitor, event by event.   *)
EXTENDS Stage, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l, s
Brief == [t |-> t, l |-> l, s |-> [ok |-> s.ok, why |-> s.why]]        \* what counterexamples show
vars == <<t, l, s>>

Init == /\ t \in 1 .. Len(Traces)
        /\ l = 1
        /\ s = StageInit

Next == /\ l <= Len(Traces[t].ev)
        /\ s.ok
        /\ s' = StageStep(s, Traces[t].ev[l])
        /\ l' = l + 1
        /\ t' = t

Accepted == s.ok
\* a complete trace ends in an accepted final event
Complete == (l > Len(Traces[t].ev)) => s.done
Spec == Init /\ [][Next]_vars
=============================================================================
