------------------------------- MODULE ChainImpl -------------------------------
(***************************************************************************)
(* A chain of stages (SHAPE[e] = 0) and pools (SHAPE[e] = n workers) built *)
(* from their contracts, as DiskSort::read and the phases build them: each *)
(* element hands its results to the next one and blocks until that         *)
(* hand-over returns; the source submits NI items and then closes the      *)
(* elements from first to last.  Checked: items reach the sink in order,   *)
(* exactly once, every close is complete, and nothing ever blocks forever. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS SHAPE, NI
E == 1 .. Len(SHAPE)
Size(e) == IF SHAPE[e] = 0 THEN 1 ELSE SHAPE[e]
W(e) == 1 .. Size(e)

VARIABLES slot,    \* slot[e]: accepted but not started (stages only)
          wk,      \* wk[e][w]: item being worked on, 0 = idle
          ph,      \* ph[e][w]: "idle" | "work" | "ready" | "handing"
          dn,      \* dn[e]: next item the element may hand on
          sink,    \* items received at the end
          src,     \* next item to submit
          spc, cl  \* source control state, element being closed
vars == <<slot, wk, ph, dn, sink, src, spc, cl>>

Init == /\ slot = [e \in E |-> 0]
        /\ wk = [e \in E |-> [w \in W(e) |-> 0]]
        /\ ph = [e \in E |-> [w \in W(e) |-> "idle"]]
        /\ dn = [e \in E |-> 1] /\ sink = <<>> /\ src = 1 /\ spc = "submit" /\ cl = 1

IsStage(e) == SHAPE[e] = 0
Target(e, i) == IF IsStage(e) THEN 1 ELSE ((i - 1) % SHAPE[e]) + 1

\* element e can accept item i now
CanPut(e, i) == IF IsStage(e) THEN slot[e] = 0 ELSE wk[e][Target(e, i)] = 0
\* a hand-over of item i into element e may return
PutReturns(e, i) == IF IsStage(e) THEN slot[e] # i \/ wk[e][1] = 0 ELSE TRUE

SlotAfter(e, i) == IF IsStage(e) THEN [slot EXCEPT ![e] = i] ELSE slot
WkAfter(f, e, i) == IF IsStage(e) THEN f ELSE [f EXCEPT ![e][Target(e, i)] = i]
PhAfter(f, e, i) == IF IsStage(e) THEN f ELSE [f EXCEPT ![e][Target(e, i)] = "work"]

StartStage(e) == /\ IsStage(e) /\ slot[e] # 0 /\ wk[e][1] = 0
                 /\ wk' = [wk EXCEPT ![e][1] = slot[e]] /\ ph' = [ph EXCEPT ![e][1] = "work"]
                 /\ slot' = [slot EXCEPT ![e] = 0] /\ UNCHANGED <<dn, sink, src, spc, cl>>
Work(e, w) == /\ ph[e][w] = "work" /\ ph' = [ph EXCEPT ![e][w] = "ready"]
              /\ UNCHANGED <<slot, wk, dn, sink, src, spc, cl>>
HandOver(e, w) ==
   /\ ph[e][w] = "ready" /\ wk[e][w] = dn[e]
   /\ IF e = Len(SHAPE)
      THEN /\ sink' = Append(sink, wk[e][w]) /\ ph' = [ph EXCEPT ![e][w] = "handing"]
           /\ UNCHANGED <<slot, wk>>
      ELSE /\ CanPut(e + 1, wk[e][w])
           /\ slot' = SlotAfter(e + 1, wk[e][w])
           /\ wk' = WkAfter(wk, e + 1, wk[e][w])
           /\ ph' = PhAfter([ph EXCEPT ![e][w] = "handing"], e + 1, wk[e][w])
           /\ UNCHANGED sink
   /\ UNCHANGED <<dn, src, spc, cl>>
HandRet(e, w) ==
   /\ ph[e][w] = "handing"
   /\ IF e = Len(SHAPE) THEN TRUE ELSE PutReturns(e + 1, wk[e][w])
   /\ dn' = [dn EXCEPT ![e] = @ + 1]
   /\ wk' = [wk EXCEPT ![e][w] = 0] /\ ph' = [ph EXCEPT ![e][w] = "idle"]
   /\ UNCHANGED <<slot, sink, src, spc, cl>>

Submit == /\ spc = "submit" /\ src <= NI /\ CanPut(1, src)
          /\ slot' = SlotAfter(1, src) /\ wk' = WkAfter(wk, 1, src) /\ ph' = PhAfter(ph, 1, src)
          /\ spc' = "subret" /\ UNCHANGED <<dn, sink, src, cl>>
SubRet == /\ spc = "subret" /\ PutReturns(1, src) /\ src' = src + 1
          /\ spc' = "submit" /\ UNCHANGED <<slot, wk, ph, dn, sink, cl>>
IdleEl(e) == slot[e] = 0 /\ \A w \in W(e) : wk[e][w] = 0
Close == /\ spc = "submit" /\ src > NI /\ cl <= Len(SHAPE) /\ IdleEl(cl)
         /\ cl' = cl + 1 /\ UNCHANGED <<slot, wk, ph, dn, sink, src, spc>>
AllDone == cl > Len(SHAPE)

Elem(e) == StartStage(e) \/ \E w \in W(e) : Work(e, w) \/ HandOver(e, w) \/ HandRet(e, w)
Source == Submit \/ SubRet \/ Close
Next == Source \/ (\E e \in E : Elem(e)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Source)
        /\ \A e \in E : WF_vars(StartStage(e)) /\ \A w \in W(e) :
               WF_vars(Work(e, w)) /\ WF_vars(HandOver(e, w)) /\ WF_vars(HandRet(e, w))

ContractHolds == /\ \A k \in 1 .. Len(sink) : sink[k] = k
                 /\ \A e \in E : cl > e => IdleEl(e) /\ dn[e] = NI + 1   \* closed = everything handed on
                 /\ AllDone => Len(sink) = NI
NoDeadlock == AllDone \/ ENABLED Source \/ \E e \in E : ENABLED Elem(e)
Terminates == <>AllDone
=============================================================================
