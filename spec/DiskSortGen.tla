------------------------------ MODULE DiskSortGen ------------------------------
(***************************************************************************)
(* Random walks over the contract: legal histories of a disk sort, printed *)
(* as JSON for replay into the real class.  Keys are 6 bit, 64.. are out   *)
(* of range.                                                               *)
(***************************************************************************)
EXTENDS DiskSort, TLC, Json

CONSTANT MaxLen
VARIABLES s, hist, nid, over, printed
vars == <<s, hist, nid, over, printed>>

Keys == {0, 1, 7, 15, 16, 31, 32, 47, 48, 62, 63}
BadKeys == {64, 65, 100, 127, 4096}
Caches == {1, 2}

Init == /\ s = SortInit /\ hist = <<>> /\ nid = 1 /\ over = FALSE /\ printed = FALSE

Do(op, e) == s' = SortStep(s, e) /\ hist' = Append(hist, op) /\ UNCHANGED over
Open(c) == c \in DOMAIN s.pend
fin == s.life \in {"fin"}
C0Empty == IF 0 \in DOMAIN s.pend THEN s.pend[0] = <<>> ELSE TRUE
Clean == \A c \in (DOMAIN s.pend) \ {0} : s.pend[c] = <<>>

Create == s.life = "none" /\ hist = <<>> /\ \E nb \in {RandomElement({2, 4, 8})} : Do(<<"new", nb>>, <<"new", nb, "ok">>) /\ UNCHANGED nid
Add(c) == /\ s.life = "open" /\ (c = 0 \/ Open(c))
          /\ \E k \in {RandomElement(Keys)} : Do(<<"add", c, k, nid>>, <<"add", c, <<0, 0, k, nid>>, 1, "ok">>)
          /\ nid' = nid + 1
RECURSIVE Bulk(_, _, _, _, _)
Bulk(st, h, c, ks, n) == IF n > Len(ks) THEN <<st, h>>
   ELSE Bulk(SortStep(st, <<"add", c, <<0, 0, ks[n], nid + n>>, 1, "ok">>), Append(h, <<"add", c, ks[n], nid + n>>), c, ks, n + 1)
AddMany(c) == /\ s.life = "open" /\ (c = 0 \/ Open(c))
              /\ \E ks \in {TLCEval([i \in 1 .. 5 |-> RandomElement(Keys)])} :
                     LET b == Bulk(s, hist, c, ks, 1) IN s' = b[1] /\ hist' = b[2] /\ nid' = nid + 6
              /\ UNCHANGED over
AddBad(c) == /\ s.life = "open" /\ (c = 0 \/ Open(c))
             /\ \E k \in {RandomElement(BadKeys)} : Do(<<"add", c, k, nid>>, <<"add", c, <<0, 0, k, nid>>, 0, "exc">>)
             /\ nid' = nid + 1
CNew(c) == /\ s.life = "open" /\ ~Open(c)
           /\ s' = [s EXCEPT !.pend = Put(@, c, <<>>)] /\ hist' = Append(hist, <<"cnew", c>>)
           /\ UNCHANGED <<nid, over>>
CFlush(c) == /\ s.life \in {"open", "fin"} /\ Open(c) /\ ~(fin /\ s.pend[c] # <<>>)
             /\ Do(<<"cflush", c>>, <<"cflush", c, "ok">>) /\ UNCHANGED nid
CDel(c) == /\ s.life \in {"open", "fin"} /\ Open(c) /\ ~(fin /\ s.pend[c] # <<>>)
           /\ s' = [SortStep(s, <<"cdel", c, "ok">>) EXCEPT !.pend = Del(@, c)]
           /\ hist' = Append(hist, <<"cdel", c>>) /\ UNCHANGED <<nid, over>>
Finish == /\ s.life \in {"open", "fin"} /\ Clean
          /\ Do(<<"finish">>, <<"finish", "ok">>) /\ UNCHANGED nid
Keep == /\ s.life \in {"open", "fin"} /\ s.files = "data"
        /\ \E b \in {RandomElement({0, 1})} : Do(<<"keep", b>>, <<"keep", b, "ok">>) /\ UNCHANGED nid
\* reading is legal when finished and the files are there
Read == /\ fin /\ s.files = "data"
        /\ \E n \in {RandomElement({1, 2, 3})} : /\ hist' = Append(hist, <<"read", n>>)
                                 /\ s' = IF s.keep THEN s ELSE [s EXCEPT !.files = "gone"]
        /\ UNCHANGED <<nid, over>>
Gone == \A c \in Caches : ~Open(c)
Close == /\ Len(hist) > 8 /\ s.life \in {"open", "fin"} /\ Gone /\ C0Empty
         /\ Do(<<"close">>, <<"close", "ok">>) /\ UNCHANGED nid
Destroy == /\ Len(hist) > 4 /\ s.life \in {"open", "fin", "closed"} /\ Gone /\ C0Empty
           /\ Do(<<"destroy">>, <<"destroy", "ok">>) /\ UNCHANGED nid
Reopen == /\ s.life = "none" /\ s.files = "data" /\ hist # <<>>
          /\ Do(<<"open", s.nb>>, <<"open", s.nb, "ok">>) /\ UNCHANGED nid
\* deliberate contract breaches, as the last step of a history
LateAdd == /\ fin /\ \E k \in {RandomElement(Keys)} : hist' = hist \o <<<<"add", 0, k, nid>>, <<"destroy">>>>
           /\ over' = TRUE /\ UNCHANGED <<s, nid>>
LateFlush == /\ s.life = "open" /\ \E c \in Caches : Open(c) /\ s.pend[c] # <<>>
                  /\ hist' = hist \o <<<<"finish">>, <<"cflush", c>>, <<"read", 2>>, <<"cdel", c>>>>
             /\ over' = TRUE /\ UNCHANGED <<s, nid>>
LateFinish == /\ fin /\ \E k \in {RandomElement(Keys)} : hist' = hist \o <<<<"add", 0, k, nid>>, <<"finish">>>>
              /\ over' = TRUE /\ UNCHANGED <<s, nid>>

Stop == over' = TRUE /\ UNCHANGED <<s, hist, nid>>

Step == \/ Create \/ Add(0) \/ AddMany(0) \/ (\E c \in Caches : AddMany(c)) \/ (\E c \in Caches : Add(c) \/ CNew(c) \/ CFlush(c) \/ CDel(c))
        \/ AddBad(0) \/ (\E c \in Caches : AddBad(c))
        \/ Finish \/ Keep \/ Read \/ Close \/ Destroy \/ Reopen
        \/ (Len(hist) > 14 /\ (LateAdd \/ LateFlush \/ LateFinish))
Next == /\ UNCHANGED printed
        /\ ~over
        /\ IF Len(hist) < MaxLen THEN (Step \/ (s.life = "none" /\ s.files = "gone" /\ Stop)) ELSE Stop
\* print each finished history once
Emit == /\ over /\ ~printed /\ PrintT("HIST " \o ToJson(hist))
        /\ printed' = TRUE /\ UNCHANGED <<s, hist, nid, over>>
Spec == Init /\ [][Next \/ Emit]_vars
=============================================================================
