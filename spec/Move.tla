--------------------------------- MODULE Move ---------------------------------
(***************************************************************************)
(* Moving a finished plot to its destination: what may be seen on disk at  *)
(* any moment.  src, dst: the two names; work: any other file the move     *)
(* leaves around ("whole" if one of them is the complete plot).            *)
(***************************************************************************)
VARIABLES src, dst, work, res
mvars == <<src, dst, work, res>>
Classes == {"none", "part", "whole"}
TypeOK == src \in {"whole", "none"} /\ dst \in {"none", "old", "whole"} /\ work \in Classes /\ res \in {"run", "ok", "failed"}

Init == src = "whole" /\ dst \in {"none", "old"} /\ work \in {"none", "part"} /\ res = "run"
Run == res = "run" /\ UNCHANGED res
\* building up or discarding a work file; it becomes whole only by copying the source
Copy == Run /\ UNCHANGED <<src, dst>> /\ work' \in Classes
        /\ (work' = "whole" => src = "whole" \/ work = "whole")
        /\ (work = "whole" /\ work' # "whole" => src = "whole" \/ dst = "whole")
ToWork == Run /\ src = "whole" /\ src' = "none" /\ work' = "whole" /\ UNCHANGED dst
Publish == Run /\ work = "whole" /\ dst' = "whole" /\ work' \in Classes /\ UNCHANGED src
Direct == Run /\ src = "whole" /\ src' = "none" /\ dst' = "whole" /\ UNCHANGED work
DropOld == Run /\ dst = "old" /\ dst' = "none" /\ UNCHANGED <<src, work>>
DropSrc == Run /\ (dst = "whole" \/ work = "whole") /\ src' = "none" /\ UNCHANGED <<dst, work>>
Report == res = "run" /\ res' \in {"ok", "failed"} /\ (res' = "ok" => dst = "whole") /\ UNCHANGED <<src, dst, work>>
Next == Copy \/ ToWork \/ Publish \/ Direct \/ DropOld \/ DropSrc \/ Report
Spec == Init /\ [][Next]_mvars

Safe == src = "whole" \/ dst = "whole" \/ work = "whole"      \* the plot is never lost
NeverPartial == dst # "part"
Honest == res = "ok" => dst = "whole"
=============================================================================
