-------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* The working, stage and destination directories as seen by one run of    *)
(* the plotter: which files exist and whether they are this run's or       *)
(* somebody else's (other plots, their temporary files, anything).  A run  *)
(* creates, changes, renames and removes its own files only, and when it   *)
(* ends successfully its finished plots are all that is left of it.        *)
(***************************************************************************)
CONSTANT Paths
VARIABLES mine, plots, other, state
fvars == <<mine, plots, other, state>>
FTypeOK == mine \subseteq Paths /\ plots \subseteq mine /\ other \subseteq Paths /\ state \in {"run", "ok", "failed"}
FInit == mine = {} /\ plots = {} /\ state = "run"
Create(p) == state = "run" /\ p \notin other /\ mine' = mine \cup {p} /\ UNCHANGED <<plots, other, state>>
Change(p) == state = "run" /\ p \in mine /\ UNCHANGED fvars
Remove(p) == state = "run" /\ p \in mine /\ mine' = mine \ {p} /\ plots' = plots \ {p} /\ UNCHANGED <<other, state>>
\* giving a file its new name; fin: this is the final name of a finished plot
Rename(p, q, fin) == /\ state = "run" /\ p \in mine /\ q \notin other
                     /\ mine' = (mine \ {p}) \cup {q}
                     /\ plots' = IF fin THEN (plots \ {p}) \cup {q} ELSE plots \ {p}
                     /\ UNCHANGED <<other, state>>
\* removing what does not exist has no effect
Nothing == state = "run" /\ UNCHANGED fvars
Finish == state = "run" /\ mine = plots /\ plots # {} /\ state' = "ok" /\ UNCHANGED <<mine, plots, other>>
Abort == state = "run" /\ state' = "failed" /\ UNCHANGED <<mine, plots, other>>
FNext == \/ \E p \in Paths : Create(p) \/ Change(p) \/ Remove(p)
         \/ \E p, q \in Paths : \E f \in BOOLEAN : Rename(p, q, f)
         \/ Nothing \/ Finish \/ Abort
Strangers == mine \cap other = {}
Clean == state = "ok" => mine = plots
OtherKept == [][other' = other]_fvars
FSpec == FInit /\ [][FNext]_fvars
=============================================================================
