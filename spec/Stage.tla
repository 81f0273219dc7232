-------------------------------- MODULE Stage --------------------------------
(***************************************************************************)
(* Contract of a single-threaded pipeline stage (include/chia/Thread.h) as *)
(* a deterministic monitor over its observable events.  The same monitor   *)
(* is used by StageImpl (exhaustive model of the algorithm) and by         *)
(* StageTrace (executions recorded from the real class).                   *)
(*                                                                         *)
(* Events (tuples):                                                        *)
(*   <<"call", "take", p, i>>   producer p starts to hand over item i      *)
(*   <<"ret",  "take", p, i, 1>>  ... and the call returned                *)
(*   <<"call", "wait"|"close", p, 0>>, <<"ret", ..., p, 0, ok>>            *)
(*                              ok = 1: returned, ok = 0: it threw         *)
(*   <<"begin", i, chk>>        the callback starts with item i            *)
(*   <<"end", i, chk>>          the callback is about to return            *)
(*   <<"throw", i>>             the callback is about to throw             *)
(*   <<"fin", live>>            script over, live worker threads left      *)
(*   <<"died", why>>            the process was terminated                 *)
(*   <<"stall", why>>           no thread can ever run again               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Chk(i) == (i * 7919 + 13) % 65521      \* what an unchanged payload yields

StageInit == [ ok       |-> TRUE,
               why      |-> "",
               called   |-> {},        \* items whose hand-over has started
               returned |-> {},        \* items whose hand-over has returned
               begun    |-> {},
               ended    |-> {},
               cur      |-> 0,         \* item in progress (0 = none)
               before   |-> <<>>,      \* item -> items returned before its call
               must     |-> <<>>,      \* waiter -> items it has to wait for
               failed   |-> FALSE,     \* a callback has thrown
               done     |-> FALSE ]

Bad(s, why) == [s EXCEPT !.ok = FALSE, !.why = why]

Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]

StageStep(s, e) ==
  CASE e[1] = "call" /\ e[2] = "take" ->
         IF e[4] \in s.called THEN Bad(s, "item handed over twice (script)")
         ELSE [s EXCEPT !.called = @ \cup {e[4]},
                        !.before = Put(@, e[4], s.returned)]
    [] e[1] = "ret" /\ e[2] = "take" ->
         IF e[5] = 0 THEN
            IF s.failed THEN s ELSE Bad(s, "hand-over failed without cause")
         ELSE IF ~ ( \/ s.failed
                     \/ e[4] \in s.begun
                     \/ s.cur = 0 /\ s.returned \subseteq s.begun )
              THEN Bad(s, "hand-over returned while an earlier item is unfinished")
              ELSE [s EXCEPT !.returned = @ \cup {e[4]}]
    [] e[1] = "call" /\ e[2] \in {"wait", "close"} ->
         [s EXCEPT !.must = Put(@, e[3], s.returned)]
    [] e[1] = "ret" /\ e[2] \in {"wait", "close"} ->
         IF e[5] = 1
         THEN IF s.must[e[3]] \subseteq s.ended THEN s
              ELSE Bad(s, "wait/close returned before a handed-over item was processed")
         ELSE IF s.failed THEN s ELSE Bad(s, "wait/close failed without cause")
    [] e[1] = "begin" ->
         IF e[2] \notin s.called THEN Bad(s, "processing an item never handed over")
         ELSE IF e[2] \in s.begun THEN Bad(s, "item processed twice")
         ELSE IF s.cur # 0 THEN Bad(s, "two items in progress")
         ELSE IF ~(s.before[e[2]] \subseteq s.begun) THEN Bad(s, "not in hand-over order")
         ELSE IF e[3] # Chk(e[2]) THEN Bad(s, "payload changed")
         ELSE [s EXCEPT !.begun = @ \cup {e[2]}, !.cur = e[2]]
    [] e[1] = "end" ->
         IF s.cur # e[2] THEN Bad(s, "end without begin")
         ELSE IF e[3] # Chk(e[2]) THEN Bad(s, "payload changed while in progress")
         ELSE [s EXCEPT !.ended = @ \cup {e[2]}, !.cur = 0]
    [] e[1] = "throw" -> [s EXCEPT !.failed = TRUE, !.cur = 0]
    [] e[1] = "fin" ->
         IF e[2] # 0 THEN Bad(s, "worker thread alive after close")
         ELSE IF s.failed THEN [s EXCEPT !.done = TRUE]
         ELSE IF s.called # s.ended THEN Bad(s, "items lost")
         ELSE [s EXCEPT !.done = TRUE]
    [] e[1] = "died"  -> IF s.failed THEN [s EXCEPT !.done = TRUE] ELSE Bad(s, "process died")
    [] e[1] = "stall" -> Bad(s, "stalled")
    [] OTHER -> Bad(s, "unknown event")
=============================================================================
