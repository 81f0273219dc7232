--------------------------------- MODULE Pool ---------------------------------
(***************************************************************************)
(* Contract of a worker pool (include/chia/ThreadPool.h): deterministic    *)
(* monitor over observable events, used by PoolImpl and PoolTrace.         *)
(*   <<"call","take",0,i>> <<"ret","take",0,i,ok>>   submission of item i  *)
(*   <<"begin",i,w,chk>> <<"end",i,w>>   worker callback with local state w*)
(*   <<"dbegin",i,chk>> <<"dend",i>>     downstream hand-over of result i  *)
(*   <<"throw",i>>                       worker callback throws            *)
(*   <<"dthrow",i>>                      downstream hand-over throws       *)
(*   <<"call"|"ret","wait"|"close",0,0[,ok]>>  <<"fin",live>>              *)
(*   <<"died",why>> <<"stall",why>>                                        *)
(* Items are numbered 1, 2, ... in submission order.  n = number of workers*)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Chk(i)  == (i * 7919 + 13) % 65521
Res(i)  == (i * 104729 + 17) % 65521     \* result payload the callback makes

PoolInit(n, out) ==
   [ ok |-> TRUE, why |-> "", n |-> n, out |-> out,   \* out: has a consumer
     sub |-> 0,            \* items submitted (call seen)
     acc |-> 0,            \* submissions returned
     begun |-> {}, ended |-> {},
     using |-> {},         \* local states in use
     dnext |-> 1,          \* next result to deliver
     dbusy |-> FALSE,
     must |-> 0,
     failed |-> FALSE, done |-> FALSE ]

PBad(s, why) == [s EXCEPT !.ok = FALSE, !.why = why]

\* results delivered (or processed, when there is no consumer)
Finished(s, i) == IF s.out THEN i < s.dnext ELSE i \in s.ended

PoolStep(s, e) ==
  CASE e[1] = "call" /\ e[2] = "take" ->
         IF e[4] # s.sub + 1 THEN PBad(s, "script") ELSE [s EXCEPT !.sub = @ + 1]
    [] e[1] = "ret" /\ e[2] = "take" ->
         IF e[5] = 0 THEN IF s.failed THEN s ELSE PBad(s, "submission failed without cause")
         ELSE IF ~s.failed /\ \E j \in 1 .. s.sub : j + s.n <= e[4] /\ ~Finished(s, j)
              THEN PBad(s, "more items in the pool than workers")
              ELSE [s EXCEPT !.acc = @ + 1]
    [] e[1] = "call" -> [s EXCEPT !.must = s.acc]
    [] e[1] = "ret" ->
         IF e[5] = 1
         THEN IF s.failed THEN PBad(s, "wait/close reports success after a failure")
              ELSE IF \E j \in 1 .. s.must : ~Finished(s, j) THEN PBad(s, "wait/close returned too early")
              ELSE s
         ELSE IF s.failed THEN s ELSE PBad(s, "wait/close failed without cause")
    [] e[1] = "begin" ->
         IF e[2] > s.sub \/ e[2] < 1 THEN PBad(s, "processing an item never submitted")
         ELSE IF e[2] \in s.begun THEN PBad(s, "item processed twice")
         ELSE IF e[3] \in s.using THEN PBad(s, "local state used by two items at a time")
         ELSE IF e[4] # Chk(e[2]) THEN PBad(s, "payload changed")
         ELSE [s EXCEPT !.begun = @ \cup {e[2]}, !.using = @ \cup {e[3]}]
    [] e[1] = "end" ->
         IF e[2] \notin s.begun \/ e[2] \in s.ended \/ e[3] \notin s.using THEN PBad(s, "end without begin")
         ELSE [s EXCEPT !.ended = @ \cup {e[2]}, !.using = @ \ {e[3]}]
    [] e[1] = "dbegin" ->
         IF s.dbusy THEN PBad(s, "two results delivered at a time")
         ELSE IF e[2] < s.dnext THEN PBad(s, "result delivered twice")
         ELSE IF e[2] # s.dnext /\ ~s.failed THEN PBad(s, "result out of order")
         ELSE IF e[2] \notin s.ended THEN PBad(s, "result delivered before it was ready")
         ELSE IF e[3] # Res(e[2]) THEN PBad(s, "result changed")
         ELSE [s EXCEPT !.dbusy = TRUE, !.dnext = e[2]]
    [] e[1] = "dend" ->
         IF ~s.dbusy THEN PBad(s, "dend") ELSE [s EXCEPT !.dbusy = FALSE, !.dnext = @ + 1]
    [] e[1] = "throw" -> [s EXCEPT !.failed = TRUE]
    [] e[1] = "dthrow" -> [s EXCEPT !.failed = TRUE, !.dbusy = FALSE]
    [] e[1] = "fin" ->
         IF e[2] # 0 THEN PBad(s, "worker threads alive after close")
         ELSE IF s.failed THEN [s EXCEPT !.done = TRUE]
         ELSE IF \E j \in 1 .. s.sub : ~Finished(s, j) THEN PBad(s, "items lost")
         ELSE [s EXCEPT !.done = TRUE]
    [] e[1] = "died" -> IF s.failed THEN [s EXCEPT !.done = TRUE] ELSE PBad(s, "process died")
    [] e[1] = "stall" -> PBad(s, "stalled")
    [] OTHER -> PBad(s, "unknown event")
=============================================================================
