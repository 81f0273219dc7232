-------------------------------- MODULE Batch --------------------------------
(***************************************************************************)
(* A batch run: plots are created one after another; a finished plot is    *)
(* where it was created (staged) until it has been moved to its            *)
(* destination.  Begin is the decision to create another plot.             *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
VARIABLES N,           \* requested number, -1: without end
          Direct,      \* plots are created at their destination
          Wait,        \* the next plot waits for the move of the last (these three never change)
          begun,       \* plots decided on
          cur,         \* the plot being created, 0: none
          staged, dest, sig, res
bvars == <<begun, cur, staged, dest, sig, res>>
BTypeOK == /\ begun \in Nat /\ cur \in 0 .. begun /\ staged \subseteq 1 .. begun /\ dest \subseteq 1 .. begun
           /\ sig \in BOOLEAN /\ res \in {"run", "ok", "failed"}
BInit == begun = 0 /\ cur = 0 /\ staged = {} /\ dest = {} /\ sig = FALSE /\ res = "run"
Begin == /\ res = "run" /\ cur = 0 /\ ~sig /\ (N < 0 \/ begun < N) /\ (Wait => staged = {})
         /\ begun' = begun + 1 /\ cur' = begun + 1 /\ UNCHANGED <<staged, dest, sig, res>>
Signal == res = "run" /\ sig' = TRUE /\ UNCHANGED <<begun, cur, staged, dest, res>>
Finish == /\ res = "run" /\ cur # 0 /\ cur' = 0
          /\ IF Direct THEN dest' = dest \cup {cur} /\ UNCHANGED staged ELSE staged' = staged \cup {cur} /\ UNCHANGED dest
          /\ UNCHANGED <<begun, sig, res>>
Move(i) == res = "run" /\ i \in staged /\ staged' = staged \ {i} /\ dest' = dest \cup {i} /\ UNCHANGED <<begun, cur, sig, res>>
Done == /\ res = "run" /\ cur = 0 /\ staged = {} /\ (begun = N \/ sig) /\ res' = "ok"
        /\ UNCHANGED <<begun, cur, staged, dest, sig>>
\* creating a plot failed: the program ends without success
Fail == res = "run" /\ cur # 0 /\ res' = "failed" /\ UNCHANGED <<begun, cur, staged, dest, sig>>
BNext == Begin \/ Signal \/ Finish \/ (\E i \in staged : Move(i)) \/ Done \/ Fail
BSpec == BInit /\ [][BNext]_bvars /\ WF_bvars(Finish \/ Fail) /\ WF_bvars(\E i \in staged : Move(i)) /\ WF_bvars(Begin \/ Done)
Exact == res = "ok" => (IF sig THEN (N >= 0 => begun <= N) ELSE begun = N) /\ dest = 1 .. begun
NoMore == [][sig => begun' = begun]_bvars
OneByOne == Cardinality(1 .. begun \ (staged \cup dest)) <= 1
Ends == N >= 0 => <>(res # "run")
Stops == sig ~> (res # "run")
=============================================================================
