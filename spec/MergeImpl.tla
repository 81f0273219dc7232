------------------------------ MODULE MergeImpl ------------------------------
(***************************************************************************)
(* The merge of phase3.hpp compute_stage1 as implemented: one thread feeds *)
(* blocks of the left table into a shared list; N merge workers copy the   *)
(* blocks they have not seen into a private window, look both parents of   *)
(* their entries up in it and drop what they no longer need.  The feeder   *)
(* may run ahead by one block that nobody has copied yet; a block copied   *)
(* by all workers is dropped from the list.  Items go to the workers round *)
(* robin and are delivered in order (the pool's contract, see Pool).       *)
(*   LB    sizes of the left blocks                                        *)
(*   RI    right items, each a sequence of <<position, distance>>          *)
(*   LATE  TRUE: a worker reads the end-of-input flag after leaving the    *)
(*         lock (the original code, which can miss the last block);        *)
(*         FALSE: it uses what it saw under the lock                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS LB, RI, N, LATE

Wk == 1 .. N
VARIABLES lpc, nb, nread, list, lend, rend, lwait, wwait, pc, it, en, win, off, seen, got, dlv
vars == <<lpc, nb, nread, list, lend, rend, lwait, wwait, pc, it, en, win, off, seen, got, dlv>>

\* the value the left table holds at position p (0-based): p itself, so a wrong look-up shows
Block(i, first) == [j \in 1 .. LB[i] |-> first + j - 1]

Init == /\ lpc = (IF Len(LB) = 0 THEN "end" ELSE "feed") /\ nb = 1 /\ nread = 0 /\ list = <<>> /\ lend = FALSE /\ rend = (Len(RI) = 0)
        /\ lwait = FALSE /\ wwait = [w \in Wk |-> FALSE]
        /\ pc = [w \in Wk |-> "next"] /\ it = [w \in Wk |-> w] /\ en = [w \in Wk |-> 1]
        /\ win = [w \in Wk |-> <<>>] /\ off = [w \in Wk |-> 0] /\ seen = [w \in Wk |-> FALSE]
        /\ got = [i \in 1 .. Len(RI) |-> <<>>] /\ dlv = 0

\* ------------------------------------------------------------------- feeder
RECURSIVE Drop(_)
Drop(s) == IF s # <<>> /\ Head(s).sync >= N THEN Drop(Tail(s)) ELSE s
Feed == /\ lpc = "feed" /\ ~lwait
        /\ IF list # <<>> /\ list[Len(list)].sync = 0 /\ ~rend
           THEN lwait' = TRUE /\ UNCHANGED <<lpc, nb, nread, list>>
           ELSE /\ list' = Append(Drop(list), [off |-> nread, v |-> Block(nb, nread), sync |-> 0])
                /\ nread' = nread + LB[nb] /\ nb' = nb + 1
                /\ lpc' = "notify" /\ UNCHANGED lwait
        /\ UNCHANGED <<lend, rend, wwait, pc, it, en, win, off, seen, got, dlv>>
Notify == /\ lpc = "notify" /\ wwait' = [w \in Wk |-> FALSE]
          /\ lpc' = IF nb > Len(LB) THEN "end" ELSE "feed"
          /\ UNCHANGED <<nb, nread, list, lend, rend, lwait, pc, it, en, win, off, seen, got, dlv>>
End == /\ lpc = "end" /\ lend' = TRUE /\ wwait' = [w \in Wk |-> FALSE] /\ lpc' = "done"
       /\ UNCHANGED <<nb, nread, list, rend, lwait, pc, it, en, win, off, seen, got, dlv>>

\* ------------------------------------------------------------------ workers
Go(w, l) == pc' = [pc EXCEPT ![w] = l]
Entry(w) == RI[it[w]][en[w]]
P0(w) == Entry(w)[1] - off[w]
P1(w) == Entry(w)[1] + Entry(w)[2] - off[w]
NextItem(w) == /\ pc[w] = "next" /\ it[w] <= Len(RI) /\ en' = [en EXCEPT ![w] = 1] /\ Go(w, "entry")
               /\ UNCHANGED <<lpc, nb, nread, list, lend, rend, lwait, wwait, it, win, off, seen, got, dlv>>
DoEntry(w) == /\ pc[w] = "entry"
              /\ IF en[w] > Len(RI[it[w]]) THEN Go(w, "drop")
                 ELSE IF P0(w) < 0 THEN Go(w, "unsorted")
                 ELSE IF Len(win[w]) <= P1(w) THEN Go(w, "copy") ELSE Go(w, "use")
              /\ UNCHANGED <<lpc, nb, nread, list, lend, rend, lwait, wwait, it, en, win, off, seen, got, dlv>>
\* one critical section: copy every block that starts at or behind the end of the window
\* (an empty block can be counted more than once by a worker: only 0 and >= N matter)
Copy(w) == /\ pc[w] = "copy" /\ ~wwait[w]
           /\ LET endpos(b) == off[w] + Len(b)
                  RECURSIVE C(_, _, _, _)
                  C(i, b, l, any) == IF i > Len(l) THEN <<b, l, any>>
                     ELSE IF l[i].off >= endpos(b) THEN C(i + 1, b \o l[i].v, [l EXCEPT ![i].sync = IF @ < N THEN @ + 1 ELSE @], TRUE)
                     ELSE C(i + 1, b, l, any)
                  r == C(1, win[w], list, FALSE)
              IN /\ win' = [win EXCEPT ![w] = r[1]] /\ list' = r[2]
                 /\ IF ~r[3] /\ ~lend THEN wwait' = [wwait EXCEPT ![w] = TRUE] /\ UNCHANGED <<pc, seen>>
                    ELSE Go(w, "copied") /\ seen' = [seen EXCEPT ![w] = lend] /\ UNCHANGED wwait
           /\ UNCHANGED <<lpc, nb, nread, lend, rend, lwait, it, en, off, got, dlv>>
Copied(w) == /\ pc[w] = "copied" /\ lwait' = FALSE /\ Go(w, "check")
             /\ UNCHANGED <<lpc, nb, nread, list, lend, rend, wwait, it, en, win, off, seen, got, dlv>>
Check(w) == /\ pc[w] = "check"
            /\ LET e == IF LATE THEN lend ELSE seen[w]
               IN IF e \/ Len(win[w]) > P1(w) THEN Go(w, "use") ELSE Go(w, "copy")
            /\ UNCHANGED <<lpc, nb, nread, list, lend, rend, lwait, wwait, it, en, win, off, seen, got, dlv>>
Use(w) == /\ pc[w] = "use"
          /\ IF P0(w) >= Len(win[w]) \/ P1(w) >= Len(win[w]) THEN Go(w, "bounds") /\ UNCHANGED <<got, en>>
             ELSE /\ got' = [got EXCEPT ![it[w]] = Append(@, <<win[w][P0(w) + 1], win[w][P1(w) + 1]>>)]
                  /\ en' = [en EXCEPT ![w] = @ + 1] /\ Go(w, "entry")
          /\ UNCHANGED <<lpc, nb, nread, list, lend, rend, lwait, wwait, it, win, off, seen, dlv>>
DropOld(w) == /\ pc[w] = "drop"
              /\ LET I == RI[it[w]]
                     last == IF I = <<>> THEN 0 ELSE I[Len(I)][1]
                     n == IF last > off[w] THEN IF last - off[w] < Len(win[w]) THEN last - off[w] ELSE Len(win[w]) ELSE 0
                 IN off' = [off EXCEPT ![w] = @ + n] /\ win' = [win EXCEPT ![w] = SubSeq(@, n + 1, Len(@))]
              /\ Go(w, "deliver")
              /\ UNCHANGED <<lpc, nb, nread, list, lend, rend, lwait, wwait, it, en, seen, got, dlv>>
Deliver(w) == /\ pc[w] = "deliver" /\ dlv = it[w] - 1 /\ dlv' = it[w] /\ it' = [it EXCEPT ![w] = @ + N] /\ Go(w, "next")
              /\ UNCHANGED <<lpc, nb, nread, list, lend, rend, lwait, wwait, en, win, off, seen, got>>
REnd == /\ dlv = Len(RI) /\ ~rend /\ rend' = TRUE /\ lwait' = FALSE
        /\ UNCHANGED <<lpc, nb, nread, list, lend, wwait, pc, it, en, win, off, seen, got, dlv>>
Spurious == \/ lwait /\ lwait' = FALSE /\ UNCHANGED <<lpc, nb, nread, list, lend, rend, wwait, pc, it, en, win, off, seen, got, dlv>>
            \/ \E w \in Wk : wwait[w] /\ wwait' = [wwait EXCEPT ![w] = FALSE]
                             /\ UNCHANGED <<lpc, nb, nread, list, lend, rend, lwait, pc, it, en, win, off, seen, got, dlv>>
Step(w) == NextItem(w) \/ DoEntry(w) \/ Copy(w) \/ Copied(w) \/ Check(w) \/ Use(w) \/ DropOld(w) \/ Deliver(w)
LStep == Feed \/ Notify \/ End
Next == LStep \/ REnd \/ Spurious \/ \E w \in Wk : Step(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(LStep) /\ WF_vars(REnd) /\ \A w \in Wk : WF_vars(Step(w))

\* ----------------------------------------------------------------- contract
NoFailure == \A w \in Wk : pc[w] \notin {"bounds", "unsorted"}
Correct == \A i \in 1 .. Len(RI) : \A j \in 1 .. Len(got[i]) : got[i][j] = <<RI[i][j][1], RI[i][j][1] + RI[i][j][2]>>
Finished == lpc = "done" /\ rend
Complete == Finished => \A i \in 1 .. Len(RI) : Len(got[i]) = Len(RI[i])
Finishes == <>[]Finished
=============================================================================
