------------------------------ MODULE StageImpl ------------------------------
(***************************************************************************)
(* Thread.h as implemented: one mutex, one condition variable, flags       *)
(* is_avail / is_busy / do_run / is_fail.  One action per critical-section *)
(* segment; notify_all outside the lock is a step of its own; waiters may  *)
(* wake up spuriously at any time.  NP producers hand over NI items each   *)
(* (optionally waiting in between); "main" waits for them and closes.      *)
(* Items in FAILS make the callback throw.                                 *)
(***************************************************************************)
EXTENDS Stage, TLC

CONSTANTS NP, NI, FAILS, WAITS   \* WAITS: producers call wait() after each item

Prod == 1 .. NP
Item(p, k) == (p - 1) * NI + k
Main == 0
Wrk == 99
Thr == Prod \cup {Main, Wrk}

VARIABLES pc, k, avail, busy, run, fail, input, cur, waiters, mon
vars == <<pc, k, avail, busy, run, fail, input, cur, waiters, mon>>
st == <<avail, busy, run, fail, input, cur>>

Init == /\ pc = [x \in Thr |-> IF x = Wrk THEN "wloop" ELSE IF x = Main THEN "mjoin" ELSE "pcall"]
        /\ k = [p \in Prod |-> 1]
        /\ avail = FALSE /\ busy = FALSE /\ run = TRUE /\ fail = FALSE
        /\ input = 0 /\ cur = 0
        /\ waiters = {}
        /\ mon = StageInit

Go(x, l) == pc' = [pc EXCEPT ![x] = l]
Ev(e) == mon' = StageStep(mon, e)
NoEv == mon' = mon
Runnable(x) == x \notin waiters

\* ---------------------------------------------------------------- worker
WLoopBody(b, r, f) ==        \* holding the lock, with busy = b etc. already set
  IF r /\ ~avail
  THEN /\ Go(Wrk, "wloop") /\ waiters' = {Wrk}     \* notify_all, then wait
       /\ busy' = b /\ run' = r /\ fail' = f /\ UNCHANGED <<avail, input, cur>>
  ELSE IF ~r
  THEN /\ Go(Wrk, "wexit") /\ busy' = b /\ run' = r /\ fail' = f
       /\ UNCHANGED <<avail, input, cur, waiters>>
  ELSE /\ cur' = input /\ input' = 0 /\ avail' = FALSE /\ busy' = TRUE
       /\ run' = r /\ fail' = f /\ Go(Wrk, "wnotify") /\ UNCHANGED waiters

WLoop == pc[Wrk] = "wloop" /\ Runnable(Wrk) /\ WLoopBody(busy, run, fail) /\ NoEv /\ UNCHANGED k
WNotify == /\ pc[Wrk] = "wnotify" /\ waiters' = {} /\ Go(Wrk, "wbegin") /\ NoEv
           /\ UNCHANGED <<st, k>>
WBegin == /\ pc[Wrk] = "wbegin" /\ Ev(<<"begin", cur, Chk(cur)>>) /\ Go(Wrk, "wexec")
          /\ UNCHANGED <<st, k, waiters>>
WExec == /\ pc[Wrk] = "wexec" /\ UNCHANGED <<st, k, waiters>>
         /\ IF cur \in FAILS THEN Ev(<<"throw", cur>>) /\ Go(Wrk, "wfail")
                             ELSE Ev(<<"end", cur, Chk(cur)>>) /\ Go(Wrk, "wlock")
WLock == pc[Wrk] = "wlock" /\ WLoopBody(FALSE, run, fail) /\ NoEv /\ UNCHANGED k
WFail == pc[Wrk] = "wfail" /\ WLoopBody(FALSE, FALSE, TRUE) /\ NoEv /\ UNCHANGED k
WExit == /\ pc[Wrk] = "wexit" /\ waiters' = {} /\ Go(Wrk, "done") /\ NoEv /\ UNCHANGED <<st, k>>

\* -------------------------------------------------------------- producers
It(p) == Item(p, k[p])
PCall(p) == /\ pc[p] = "pcall" /\ Ev(<<"call", "take", p, It(p)>>) /\ Go(p, "ptake")
            /\ UNCHANGED <<st, k, waiters>>
PTake(p) == /\ pc[p] = "ptake" /\ Runnable(p) /\ NoEv /\ UNCHANGED <<k, busy, run, fail, cur>>
            /\ IF run /\ avail THEN waiters' = waiters \cup {p} /\ UNCHANGED <<pc, avail, input>>
               ELSE IF ~run THEN Go(p, "pret") /\ UNCHANGED <<avail, input, waiters>>
               ELSE /\ avail' = TRUE /\ input' = It(p)
                    /\ IF busy THEN Go(p, "pwait") /\ waiters' = {p}   \* notify_all, wait
                               ELSE Go(p, "pnotify") /\ UNCHANGED waiters
PWait(p) == /\ pc[p] = "pwait" /\ Runnable(p) /\ NoEv /\ UNCHANGED <<st, k>>
            /\ IF run /\ avail /\ busy THEN waiters' = {p} /\ UNCHANGED pc
               ELSE Go(p, "pret") /\ UNCHANGED waiters
PNotify(p) == /\ pc[p] = "pnotify" /\ waiters' = {} /\ Go(p, "pret") /\ NoEv /\ UNCHANGED <<st, k>>
NextP(p) == IF k[p] < NI THEN k' = [k EXCEPT ![p] = @ + 1] /\ Go(p, "pcall")
                         ELSE Go(p, "done") /\ UNCHANGED k
PRet(p) == /\ pc[p] = "pret" /\ Ev(<<"ret", "take", p, It(p), 1>>) /\ UNCHANGED <<st, waiters>>
           /\ IF WAITS THEN Go(p, "pwcall") /\ UNCHANGED k ELSE NextP(p)
PWCall(p) == /\ pc[p] = "pwcall" /\ Ev(<<"call", "wait", p, 0>>) /\ Go(p, "pwbody")
             /\ UNCHANGED <<st, k, waiters>>
PWBody(p) == /\ pc[p] = "pwbody" /\ Runnable(p) /\ NoEv /\ UNCHANGED <<st, k>>
             /\ IF run /\ (avail \/ busy) THEN waiters' = waiters \cup {p} /\ UNCHANGED pc
                ELSE Go(p, IF fail THEN "pwthrow" ELSE "pwret") /\ UNCHANGED waiters
PWRet(p) == /\ pc[p] \in {"pwret", "pwthrow"} /\ UNCHANGED <<st, waiters>>
            /\ Ev(<<"ret", "wait", p, 0, IF pc[p] = "pwret" THEN 1 ELSE 0>>) /\ NextP(p)

\* ------------------------------------------------------------------- main
MJoin == /\ pc[Main] = "mjoin" /\ \A p \in Prod : pc[p] = "done"
         /\ Ev(<<"call", "close", Main, 0>>) /\ Go(Main, "mwait") /\ UNCHANGED <<st, k, waiters>>
MWait == /\ pc[Main] = "mwait" /\ Runnable(Main) /\ UNCHANGED <<st, k>>
         /\ IF run /\ (avail \/ busy) THEN waiters' = waiters \cup {Main} /\ UNCHANGED pc /\ NoEv
            ELSE IF fail THEN Go(Main, "mfin") /\ Ev(<<"ret", "close", Main, 0, 0>>) /\ UNCHANGED waiters
            ELSE Go(Main, "mclose") /\ NoEv /\ UNCHANGED waiters
MClose == /\ pc[Main] = "mclose" /\ run' = FALSE /\ Go(Main, "mnotify") /\ NoEv
          /\ UNCHANGED <<avail, busy, fail, input, cur, k, waiters>>
MNotify == /\ pc[Main] = "mnotify" /\ waiters' = {} /\ Go(Main, "mjoinw") /\ NoEv /\ UNCHANGED <<st, k>>
MJoinW == /\ pc[Main] = "mjoinw" /\ pc[Wrk] = "done" /\ Ev(<<"ret", "close", Main, 0, 1>>)
          /\ Go(Main, "mfin") /\ UNCHANGED <<st, k, waiters>>
MFin == /\ pc[Main] = "mfin" /\ pc[Wrk] = "done" /\ Ev(<<"fin", 0>>) /\ Go(Main, "done")
        /\ UNCHANGED <<st, k, waiters>>

Worker == WLoop \/ WNotify \/ WBegin \/ WExec \/ WLock \/ WFail \/ WExit
Producer(p) == PCall(p) \/ PTake(p) \/ PWait(p) \/ PNotify(p) \/ PRet(p) \/ PWCall(p) \/ PWBody(p) \/ PWRet(p)
MainT == MJoin \/ MWait \/ MClose \/ MNotify \/ MJoinW \/ MFin
Spurious == \E x \in waiters : waiters' = waiters \ {x} /\ UNCHANGED <<pc, k, st, mon>>
AllDone == \A x \in Thr : pc[x] = "done"
Terminated == AllDone /\ UNCHANGED vars

Next == Worker \/ (\E p \in Prod : Producer(p)) \/ MainT \/ Spurious \/ Terminated
Spec == Init /\ [][Next]_vars /\ WF_vars(Worker) /\ WF_vars(MainT) /\ \A p \in Prod : WF_vars(Producer(p))

ContractHolds == mon.ok
FinalOk == AllDone => mon.done /\ (FAILS # {} => mon.failed)
\* no reachable state without a runnable thread (spurious wake-ups not counted)
NoDeadlock == AllDone \/ ENABLED Worker \/ ENABLED MainT \/ \E p \in Prod : ENABLED Producer(p)
Terminates == <>AllDone
=============================================================================
