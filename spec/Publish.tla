-------------------------------- MODULE Publish --------------------------------
(***************************************************************************)
(* Creating a plot: all data goes to a temporary name, the final name is   *)
(* given to the complete plot.  Any file operation may fail; the process   *)
(* may end anywhere.  What must hold at every moment, of the final name    *)
(* (final: none, whole, bad) and the reported result.                      *)
(***************************************************************************)
VARIABLES final, res
pvars == <<final, res>>
PTypeOK == final \in {"none", "whole"} /\ res \in {"run", "ok", "failed", "killed"}
PInit == final = "none" /\ res = "run"
Name == res = "run" /\ final = "none" /\ final' = "whole" /\ UNCHANGED res
End == res = "run" /\ res' \in {"ok", "failed", "killed"} /\ (res' = "ok" => final = "whole") /\ UNCHANGED final
PNext == Name \/ End
PSpec == PInit /\ [][PNext]_pvars
NoDamage == final # "bad"                       \* the final name never denotes a damaged plot
Honest == res = "ok" => final = "whole"         \* success means the plot is there
=============================================================================
