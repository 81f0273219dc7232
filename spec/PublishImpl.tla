------------------------------ MODULE PublishImpl ------------------------------
(***************************************************************************)
(* The last two phases as file operations on the plot file: header, parks, *)
(* table pointers, close, reopen, checkpoint tables and pointers, close,   *)
(* rename.  Data may sit in the stream's buffer until a later operation    *)
(* pushes it out; each operation may fail and lose what was buffered.      *)
(* Checked(o): the result of operation o is looked at.                     *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS Writes,            \* number of buffered writes per phase
          Unchecked          \* operations whose result is ignored
VARIABLES final, res, pc, n, buf, lost
vars == <<final, res, pc, n, buf, lost>>
P == INSTANCE Publish
Init == final = "none" /\ res = "run" /\ pc = "header" /\ n = 0 /\ buf = FALSE /\ lost = FALSE
\* operation o at pc: succeeds (going to nxt) or fails
Op(o, nxt, b, cnt) ==
  \/ pc' = nxt /\ buf' = b /\ n' = cnt /\ UNCHANGED <<final, res, lost>>
  \/ /\ IF o \in Unchecked THEN pc' = nxt /\ n' = cnt /\ buf' = FALSE /\ lost' = TRUE /\ UNCHANGED <<final, res>>
        ELSE res' = "failed" /\ pc' = "end" /\ UNCHANGED <<final, n, buf, lost>>
Next == /\ res = "run"
        /\ \/ pc = "header" /\ Op("header", "parks", FALSE, 0)
           \/ pc = "parks" /\ n < Writes /\ Op("write", "parks", TRUE, n + 1)
           \/ pc = "parks" /\ n = Writes /\ Op("write", "close3", TRUE, 0)
           \/ pc = "close3" /\ Op("close3", "open4", FALSE, 0)
           \/ pc = "open4" /\ Op("open4", "tables", FALSE, 0)
           \/ pc = "tables" /\ n < Writes /\ Op("write", "tables", TRUE, n + 1)
           \/ pc = "tables" /\ n = Writes /\ Op("write", "close4", TRUE, 0)
           \/ pc = "close4" /\ Op("close4", "name", FALSE, 0)
           \/ pc = "name" /\ final' = (IF lost THEN "bad" ELSE "whole") /\ pc' = "done" /\ UNCHANGED <<res, n, buf, lost>>
           \/ pc = "name" /\ (IF "rename" \in Unchecked THEN pc' = "done" /\ UNCHANGED res ELSE pc' = "end" /\ res' = "failed") /\ UNCHANGED <<final, n, buf, lost>>
           \/ pc = "done" /\ res' = "ok" /\ pc' = "end" /\ UNCHANGED <<final, n, buf, lost>>
           \/ res' = "killed" /\ pc' = "end" /\ UNCHANGED <<final, n, buf, lost>>
Spec == Init /\ [][Next]_vars
NoDamage == P!NoDamage
Honest == P!Honest
Refines == P!PSpec
=============================================================================
