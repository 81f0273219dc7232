------------------------------- MODULE MoveImpl -------------------------------
(***************************************************************************)
(* The move algorithm of the plotter: rename; if that is not possible copy *)
(* in chunks to a temporary name, close, rename, remove the source.  Any   *)
(* operation may fail; the process may be killed anywhere (every reachable *)
(* state is a crash state).  A failed move is tried again up to Tries      *)
(* times.  VIA: the earlier variant that renames by way of the temporary   *)
(* name and does not check the second rename.                              *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS Chunks, Tries, SameFs, VIA
VARIABLES src, dst, work, res, pc, done, try
vars == <<src, dst, work, res, pc, done, try>>
M == INSTANCE Move
Init == /\ src = "whole" /\ dst \in {"none", "old"} /\ work \in {"none", "part"} /\ res = "run"
        /\ pc = "start" /\ done = 0 /\ try = 1
Fail == /\ UNCHANGED <<src, dst, work>> /\ done' = 0
        /\ IF try < Tries THEN pc' = "start" /\ try' = try + 1 /\ UNCHANGED res
           ELSE pc' = "end" /\ res' = "failed" /\ UNCHANGED try
Keep == UNCHANGED <<res, try>>
Rename == /\ pc = "start"
          /\ \/ SameFs /\ src = "whole" /\ ~VIA /\ src' = "none" /\ dst' = "whole" /\ pc' = "good" /\ UNCHANGED <<work, done>> /\ Keep
             \/ SameFs /\ src = "whole" /\ VIA /\ src' = "none" /\ work' = "whole" /\ pc' = "close" /\ UNCHANGED <<dst, done>> /\ Keep
             \/ pc' = "open" /\ UNCHANGED <<src, dst, work, done>> /\ Keep          \* other file system, or any error
Open == /\ pc = "open"
        /\ \/ src = "whole" /\ pc' = "copy" /\ work' = "part" /\ done' = 0 /\ UNCHANGED <<src, dst>> /\ Keep
           \/ Fail
CopyChunk == /\ pc = "copy"
             /\ \/ done < Chunks /\ done' = done + 1 /\ UNCHANGED <<src, dst, work, pc>> /\ Keep
                \/ done = Chunks /\ work' = "whole" /\ pc' = "close" /\ UNCHANGED <<src, dst, done>> /\ Keep
                \/ Fail                                                             \* read, write or close error
Close == /\ pc = "close"
         /\ \/ VIA /\ src' = "none" /\ pc' = "publish" /\ UNCHANGED <<dst, work, done>> /\ Keep
            \/ ~VIA /\ pc' = "publish" /\ UNCHANGED <<src, dst, work, done>> /\ Keep
PublishIt == /\ pc = "publish"
             /\ \/ dst' = "whole" /\ work' = "none" /\ pc' = "drop" /\ UNCHANGED <<src, done>> /\ Keep
                \/ ~VIA /\ Fail
                \/ VIA /\ pc' = "good" /\ UNCHANGED <<src, dst, work, done>> /\ Keep
Drop == /\ pc = "drop"
        /\ \/ src' = "none" /\ pc' = "good" /\ UNCHANGED <<dst, work, done>> /\ Keep
           \/ pc' = "good" /\ UNCHANGED <<src, dst, work, done>> /\ Keep              \* the source stays behind
Good == pc = "good" /\ res' = "ok" /\ pc' = "end" /\ UNCHANGED <<src, dst, work, done, try>>
Next == Rename \/ Open \/ CopyChunk \/ Close \/ PublishIt \/ Drop \/ Good
Spec == Init /\ [][Next]_vars
Safe == M!Safe
NeverPartial == M!NeverPartial
Honest == M!Honest
\* as long as it has not arrived, the plot is still at the source: the next attempt can succeed
Retriable == res # "ok" /\ dst # "whole" => src = "whole"
Refines == M!Spec
=============================================================================
