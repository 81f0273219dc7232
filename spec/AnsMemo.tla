------------------------------- MODULE AnsMemo -------------------------------
(***************************************************************************)
(* The cache of code tables: threads that compress for the same table look *)
(* it up, and build and store it when it is missing.  Several threads may  *)
(* build it at the same time; the last one stored stays.  What is used for *)
(* compressing must be complete.  Tables are never freed while in use.     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Threads,
          Parts,          \* steps of building a table
          Early,          \* the table is stored before it is built
          Free            \* a table that is replaced is freed
VARIABLES memo,           \* 0 or the table stored
          built,          \* table -> parts done
          freed,          \* tables given back
          pc, mine        \* per thread: where it is, the table it holds
vars == <<memo, built, freed, pc, mine>>
Tables == 1 .. Cardinality(Threads)
Init == memo = 0 /\ built = [t \in Tables |-> 0] /\ freed = {} /\ pc = [t \in Threads |-> "look"] /\ mine = [t \in Threads |-> 0]
Fresh == CHOOSE x \in Tables : x \notin {mine[t] : t \in Threads} /\ built[x] = 0
Look(t) == /\ pc[t] = "look"
           /\ IF memo # 0 THEN pc' = [pc EXCEPT ![t] = "get"] /\ UNCHANGED mine
              ELSE mine' = [mine EXCEPT ![t] = Fresh] /\ pc' = [pc EXCEPT ![t] = IF Early THEN "store" ELSE "build"]
           /\ UNCHANGED <<memo, built, freed>>
Build(t) == /\ pc[t] = "build" /\ built[mine[t]] < Parts
            /\ built' = [built EXCEPT ![mine[t]] = @ + 1]
            /\ pc' = [pc EXCEPT ![t] = IF built'[mine[t]] < Parts THEN "build" ELSE IF Early THEN "get" ELSE "store"]
            /\ UNCHANGED <<memo, freed, mine>>
Store(t) == /\ pc[t] = "store" /\ memo' = mine[t]
            /\ freed' = IF Free /\ memo # 0 THEN freed \cup {memo} ELSE freed
            /\ pc' = [pc EXCEPT ![t] = IF Early THEN "build" ELSE "get"]
            /\ UNCHANGED <<built, mine>>
Get(t) == pc[t] = "get" /\ mine' = [mine EXCEPT ![t] = memo] /\ pc' = [pc EXCEPT ![t] = "use"] /\ UNCHANGED <<memo, built, freed>>
Use(t) == pc[t] = "use" /\ pc' = [pc EXCEPT ![t] = "done"] /\ UNCHANGED <<memo, built, freed, mine>>
Next == \E t \in Threads : Look(t) \/ Build(t) \/ Store(t) \/ Get(t) \/ Use(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
TypeOK == memo \in 0 .. Cardinality(Threads) /\ \A t \in Threads : mine[t] \in 0 .. Cardinality(Threads)
Complete == \A t \in Threads : pc[t] = "use" => mine[t] # 0 /\ built[mine[t]] = Parts /\ mine[t] \notin freed
AllDone == <>(\A t \in Threads : pc[t] = "done")
=============================================================================
