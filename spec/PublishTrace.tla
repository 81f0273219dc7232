----------------------------- MODULE PublishTrace -----------------------------
(***************************************************************************)
(* Runs of the real plotter with a fault or a kill at some file operation: *)
(* what the final name denotes afterwards and what was reported.           *)
(***************************************************************************)
EXTENDS Publish, Sequences, Integers, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, ph
TInit == c \in 1 .. Len(Cases) /\ ph = 0 /\ final = "none" /\ res = "run"
TNext == \/ ph = 0 /\ ph' = 1 /\ final' = Cases[c].final /\ UNCHANGED <<c, res>>
         \/ ph = 1 /\ ph' = 2 /\ res' = Cases[c].res /\ UNCHANGED <<c, final>>
TSpec == TInit /\ [][TNext]_<<pvars, c, ph>>
Right == PSpec
=============================================================================
