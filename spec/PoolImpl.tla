------------------------------- MODULE PoolImpl -------------------------------
(***************************************************************************)
(* ThreadPool.h as implemented: worker w (0..N-1) is a stage (used through *)
(* its contract, which StageImpl checks); worker w may deliver job j only  *)
(* when its ring predecessor owns no job number below j; it then clears    *)
(* its own number and signals.  Failing callbacks (FAILS) and failing      *)
(* deliveries (DFAILS) mark the worker failed and signal too.              *)
(***************************************************************************)
EXTENDS Pool, TLC, Integers

CONSTANTS N, NI, FAILS, DFAILS, OUT

Wk == 0 .. N - 1
Prev(w) == (w + N - 1) % N
NONE == 999999

VARIABLES pc,       \* worker control state
          slot,     \* item accepted by the worker's stage, 0 = none
          job,      \* job number, NONE = idle
          wfail,    \* worker marked failed (ring)
          sfail,    \* its stage has failed (stage loop ended)
          waitq,    \* worker w waits on its predecessor's condition variable
          mpc, nxt, ci, mon
vars == <<pc, slot, job, wfail, sfail, waitq, mpc, nxt, ci, mon>>
wst == <<pc, slot, job, wfail, sfail, waitq>>
mst == <<mpc, nxt, ci>>

Init == /\ pc = [w \in Wk |-> "idle"] /\ slot = [w \in Wk |-> 0] /\ job = [w \in Wk |-> NONE]
        /\ wfail = [w \in Wk |-> FALSE] /\ sfail = [w \in Wk |-> FALSE]
        /\ waitq = [w \in Wk |-> FALSE]
        /\ mpc = "call" /\ nxt = 1 /\ ci = 0
        /\ mon = PoolInit(N, OUT)

Ev(e) == mon' = PoolStep(mon, e)
NoEv == mon' = mon
Go(w, l) == pc' = [pc EXCEPT ![w] = l]

\* ------------------------------------------------------------------ workers
Start(w) == /\ pc[w] = "idle" /\ slot[w] # 0 /\ ~sfail[w]
            /\ Ev(<<"begin", slot[w], w, Chk(slot[w])>>) /\ Go(w, "exec")
            /\ UNCHANGED <<slot, job, wfail, sfail, waitq, mst>>
Exec(w) == /\ pc[w] = "exec" /\ UNCHANGED <<slot, job, wfail, sfail, waitq, mst>>
           /\ IF slot[w] \in FAILS THEN Ev(<<"throw", slot[w]>>) /\ Go(w, "fail")
              ELSE Ev(<<"end", slot[w], w>>) /\ Go(w, "order")
Order(w) == /\ pc[w] = "order" /\ ~waitq[w] /\ NoEv
            /\ UNCHANGED <<slot, job, wfail, sfail, mst>>
            /\ IF job[Prev(w)] < slot[w]
               THEN IF wfail[Prev(w)] THEN Go(w, "fail") /\ UNCHANGED waitq
                    ELSE waitq' = [waitq EXCEPT ![w] = TRUE] /\ UNCHANGED pc
               ELSE Go(w, IF OUT THEN "dbegin" ELSE "clear") /\ UNCHANGED waitq
DBegin(w) == /\ pc[w] = "dbegin" /\ Ev(<<"dbegin", slot[w], Res(slot[w])>>) /\ Go(w, "dend")
             /\ UNCHANGED <<slot, job, wfail, sfail, waitq, mst>>
DEnd(w) == /\ pc[w] = "dend" /\ UNCHANGED <<slot, job, wfail, sfail, waitq, mst>>
           /\ IF slot[w] \in DFAILS THEN Ev(<<"dthrow", slot[w]>>) /\ Go(w, "fail")
              ELSE Ev(<<"dend", slot[w]>>) /\ Go(w, "clear")
Clear(w) == /\ pc[w] = "clear" /\ job' = [job EXCEPT ![w] = NONE] /\ Go(w, "signal") /\ NoEv
            /\ UNCHANGED <<slot, wfail, sfail, waitq, mst>>
Fail(w) == /\ pc[w] = "fail" /\ wfail' = [wfail EXCEPT ![w] = TRUE] /\ Go(w, "fsignal") /\ NoEv
           /\ UNCHANGED <<slot, job, sfail, waitq, mst>>
\* only the ring successor waits on w's condition variable
Succ(w) == (w + 1) % N
Signal(w) == /\ pc[w] \in {"signal", "fsignal"} /\ waitq' = [waitq EXCEPT ![Succ(w)] = FALSE]
             /\ Go(w, IF pc[w] = "signal" THEN "free" ELSE "sfail") /\ NoEv
             /\ UNCHANGED <<slot, job, wfail, sfail, mst>>
Free(w) == /\ pc[w] = "free" /\ slot' = [slot EXCEPT ![w] = 0] /\ Go(w, "idle") /\ NoEv
           /\ UNCHANGED <<job, wfail, sfail, waitq, mst>>
SFail(w) == /\ pc[w] = "sfail" /\ sfail' = [sfail EXCEPT ![w] = TRUE] /\ Go(w, "dead") /\ NoEv
            /\ UNCHANGED <<slot, job, wfail, waitq, mst>>
Spurious(w) == waitq[w] /\ waitq' = [waitq EXCEPT ![w] = FALSE] /\ NoEv
               /\ UNCHANGED <<pc, slot, job, wfail, sfail, mst>>
Worker(w) == Start(w) \/ Exec(w) \/ Order(w) \/ DBegin(w) \/ DEnd(w) \/ Clear(w) \/ Fail(w)
             \/ Signal(w) \/ Free(w) \/ SFail(w)

\* --------------------------------------------------------------- submitter
Tgt == (nxt - 1) % N
IdleW(w) == slot[w] = 0
MCall == /\ mpc = "call" /\ UNCHANGED wst
         /\ IF nxt > NI THEN mpc' = "cwait" /\ ci' = 0 /\ Ev(<<"call", "close", 0, 0>>) /\ UNCHANGED nxt
            ELSE mpc' = "twait" /\ Ev(<<"call", "take", 0, nxt>>) /\ UNCHANGED <<nxt, ci>>
MTWait == /\ mpc = "twait" /\ (IdleW(Tgt) \/ sfail[Tgt]) /\ UNCHANGED <<wst, nxt, ci>>
          /\ IF sfail[Tgt] THEN mpc' = "tfail" /\ Ev(<<"ret", "take", 0, nxt, 0>>)
             ELSE mpc' = "tjob" /\ NoEv
MTJob == /\ mpc = "tjob" /\ job' = [job EXCEPT ![Tgt] = nxt] /\ mpc' = "tput" /\ NoEv
         /\ UNCHANGED <<pc, slot, wfail, sfail, waitq, nxt, ci>>
MTPut == /\ mpc = "tput" /\ slot' = [slot EXCEPT ![Tgt] = nxt] /\ mpc' = "tret" /\ NoEv
         /\ UNCHANGED <<pc, job, wfail, sfail, waitq, nxt, ci>>
MTRet == /\ mpc = "tret" /\ Ev(<<"ret", "take", 0, nxt, 1>>) /\ nxt' = nxt + 1 /\ mpc' = "call"
         /\ UNCHANGED <<wst, ci>>
MTFail == /\ mpc = "tfail" /\ Ev(<<"call", "close", 0, 0>>) /\ mpc' = "cwait" /\ ci' = 0
          /\ UNCHANGED <<wst, nxt>>
MCWait == /\ mpc = "cwait" /\ UNCHANGED <<wst, nxt>>
          /\ IF ci < N THEN /\ IdleW(ci) \/ sfail[ci]
                            /\ IF sfail[ci] THEN mpc' = "fin" /\ Ev(<<"ret", "close", 0, 0, 0>>) /\ UNCHANGED ci
                               ELSE ci' = ci + 1 /\ UNCHANGED mpc /\ NoEv
             ELSE mpc' = "fin" /\ UNCHANGED ci /\ Ev(<<"ret", "close", 0, 0, 1>>)
MFin == /\ mpc = "fin" /\ Ev(<<"fin", 0>>) /\ mpc' = "done" /\ UNCHANGED <<wst, nxt, ci>>
MainT == MCall \/ MTWait \/ MTJob \/ MTPut \/ MTRet \/ MTFail \/ MCWait \/ MFin

Quiet == \A w \in Wk : pc[w] = "dead" \/ (pc[w] = "idle" /\ slot[w] = 0)
AllDone == mpc = "done" /\ Quiet
Next == MainT \/ (\E w \in Wk : Worker(w) \/ Spurious(w)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(MainT) /\ \A w \in Wk : WF_vars(Worker(w))

ContractHolds == mon.ok
FinalOk == AllDone => mon.done
NoDeadlock == AllDone \/ ENABLED MainT \/ \E w \in Wk : ENABLED Worker(w)
Terminates == <>AllDone
=============================================================================
