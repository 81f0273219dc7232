------------------------------ MODULE SpaceTrace ------------------------------
(***************************************************************************)
(* What real runs took.  A case: joint (1: one working directory), fin     *)
(* (size of the finished plot), cap (number of open files the program made *)
(* sure of), ev: [o |-> g(row) | d(rop) | m(ove to g in e) | o(pen) |     *)
(* c(lose), f(ile), d(ir: 1, 2, 3), n(ew size), p (1: the plot)].          *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES size, used, written, open, state, c, i
tvars == <<size, used, written, open, state, c, i>>
S == INSTANCE Space WITH Dirs <- 1 .. 3
TInit == c \in 1 .. Len(Cases) /\ i = 0 /\ S!SInit
Ev == Cases[c].ev
Bytes(e) == IF e.p = 1 THEN (e.n * S!PlotSize) \div Cases[c].fin ELSE e.n
TNext == /\ i' = i + 1 /\ UNCHANGED c
         /\ \/ /\ i < Len(Ev)
               /\ LET e == Ev[i + 1] IN
                  CASE e.o = "g" -> S!Grow(e.f, e.d, Bytes(e))
                    [] e.o = "m" -> S!Move(e.f, e.d, e.g, e.e)
                    [] e.o = "d" -> S!Drop(e.f, e.d)
                    [] e.o = "o" -> S!Open
                    [] e.o = "c" -> S!Close
            \/ i = Len(Ev) /\ S!End
TSpec == TInit /\ [][TNext]_tvars
Fits == S!Fits(Cases[c].joint = 1)
Quarter == S!Quarter(Cases[c].joint = 1)
Handles == open <= Cases[c].cap
\* everything given back at the end
Stuck == ~(i = Len(Ev) /\ ~ENABLED TNext)
Brief == [c |-> c, i |-> i, used |-> used, written |-> written, open |-> open, files |-> size, state |-> state]
=============================================================================
