------------------------------ MODULE BatchImpl ------------------------------
(***************************************************************************)
(* The main loop with its copy thread (a queue of one, Thread::take blocks *)
(* while it is full), the flag set by the signal handler, failing moves    *)
(* with retry, wait() and close().                                         *)
(* Bugs: "noclose" - no close() at the end; "noretry" - a failed move is   *)
(* given up; "noflag" - the flag is not looked at.                         *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS N, Direct, Wait, Bugs, MaxPlots, MaxFails
VARIABLES pc, i, queue, copying, flag, fails, begun, cur, staged, dest, sig, res
vars == <<pc, i, queue, copying, flag, fails, begun, cur, staged, dest, sig, res>>
B == INSTANCE Batch
Init == pc = "loop" /\ i = 0 /\ queue = 0 /\ copying = 0 /\ flag = FALSE /\ fails = 0 /\ B!BInit
U == UNCHANGED <<queue, copying, fails>>
Loop == /\ pc = "loop" /\ res = "run"
        /\ IF ~(i < N \/ N < 0) \/ (flag /\ "noflag" \notin Bugs)
           THEN pc' = "close" /\ UNCHANGED <<i, begun, cur>>
           ELSE pc' = "plot" /\ i' = i + 1 /\ begun' = begun + 1 /\ cur' = begun + 1
        /\ UNCHANGED <<flag, staged, dest, sig, res>> /\ U
Plot == /\ pc = "plot" /\ res = "run" /\ cur' = 0
        /\ IF Direct THEN dest' = dest \cup {cur} /\ pc' = "loop" /\ UNCHANGED staged
           ELSE staged' = staged \cup {cur} /\ pc' = "take" /\ UNCHANGED dest
        /\ UNCHANGED <<i, flag, begun, sig, res>> /\ U
PlotFails == pc = "plot" /\ res = "run" /\ res' = "failed" /\ UNCHANGED <<pc, i, flag, begun, cur, staged, dest, sig>> /\ U
Take == /\ pc = "take" /\ queue = 0 /\ res = "run" /\ queue' = i /\ pc' = (IF Wait THEN "wait" ELSE "loop")
        /\ UNCHANGED <<i, copying, flag, fails, begun, cur, staged, dest, sig, res>>
WaitC == pc = "wait" /\ queue = 0 /\ copying = 0 /\ res = "run" /\ pc' = "loop" /\ UNCHANGED <<i, flag, begun, cur, staged, dest, sig, res>> /\ U
Close == /\ pc = "close" /\ ("noclose" \in Bugs \/ (queue = 0 /\ copying = 0)) /\ res = "run" /\ res' = "ok"
         /\ UNCHANGED <<pc, i, flag, begun, cur, staged, dest, sig>> /\ U
CopyStart == copying = 0 /\ queue # 0 /\ res = "run" /\ copying' = queue /\ queue' = 0 /\ UNCHANGED <<pc, i, flag, fails, begun, cur, staged, dest, sig, res>>
CopyOk == /\ copying # 0 /\ res = "run" /\ staged' = staged \ {copying} /\ dest' = dest \cup {copying} /\ copying' = 0
          /\ UNCHANGED <<pc, i, queue, flag, fails, begun, cur, sig, res>>
CopyFail == /\ copying # 0 /\ res = "run" /\ fails < MaxFails /\ fails' = fails + 1
            /\ copying' = (IF "noretry" \in Bugs THEN 0 ELSE copying)
            /\ UNCHANGED <<pc, i, queue, flag, begun, cur, staged, dest, sig, res>>
Interrupt == ~sig /\ res = "run" /\ flag' = TRUE /\ sig' = TRUE /\ UNCHANGED <<pc, i, queue, copying, fails, begun, cur, staged, dest, res>>
Next == Loop \/ Plot \/ PlotFails \/ Take \/ WaitC \/ Close \/ CopyStart \/ CopyOk \/ CopyFail \/ Interrupt
Spec == Init /\ [][Next]_vars /\ WF_vars(Loop \/ Plot \/ Take \/ WaitC \/ Close) /\ WF_vars(CopyStart \/ CopyOk)
Bound == begun <= MaxPlots
BTypeOK == B!BTypeOK
Exact == B!Exact
OneByOne == B!OneByOne
Refines == B!BInit /\ [][B!BNext]_B!bvars
NoMore == B!NoMore
Ends == B!Ends
Stops == B!Stops
=============================================================================
