------------------------------ MODULE FilesImpl ------------------------------
(***************************************************************************)
(* The life of the temporary files over the four phases: one file per      *)
(* table, one set of bucket files per sort (here: one file), the plot.     *)
(* Keep: files whose removal is forgotten (none: the real algorithm).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Keep
\* step: <<"c", file>> create, <<"d", file>> remove, <<"r", from, to>>
S(k, t) == <<k, t>>
T1 == 1 .. 7
P1 == LET RECURSIVE Go(_)
          Go(t) == IF t > 6 THEN <<>> ELSE
             <<<<"c", S("p1.table", t)>>>> \o (IF t < 6 THEN <<<<"c", S("p1.sort", t + 1)>>>> ELSE <<<<"c", S("p1.table", 7)>>>>)
             \o <<<<"d", S("p1.sort", t)>>>> \o Go(t + 1)
      IN <<<<"c", S("p1.sort", 1)>>>> \o Go(1)
P2 == LET RECURSIVE Go(_)
          Go(t) == IF t < 2 THEN <<>> ELSE <<<<"c", S("p2.sort", t)>>, <<"d", S("p1.table", t)>>>> \o Go(t - 1)
      IN <<<<"c", S("p2.table", 7)>>, <<"d", S("p1.table", 7)>>>> \o Go(6)
P3 == LET RECURSIVE Go(_)
          Go(t) == IF t > 7 THEN <<>> ELSE
             <<<<"c", S("p3s1.sort", t)>>, <<"d", IF t = 7 THEN S("p2.table", 7) ELSE S("p2.sort", t)>>,
               <<"d", IF t = 2 THEN S("p1.table", 1) ELSE S("p3s2.sort", t - 1)>>, <<"c", S("p3s2.sort", t)>>, <<"d", S("p3s1.sort", t)>>>> \o Go(t + 1)
      IN <<<<"c", S("plot.tmp", 0)>>>> \o Go(2)
P4 == <<<<"d", S("p3s2.sort", 7)>>, <<"r", S("plot.tmp", 0), S("plot", 0)>>>>
Steps == P1 \o P2 \o P3 \o P4
Paths == {Steps[i][2] : i \in 1 .. Len(Steps)} \cup {S("plot", 0), S("foreign", 0)}
VARIABLES mine, plots, other, state, i
vars == <<mine, plots, other, state, i>>
F == INSTANCE Files
Init == mine = {} /\ plots = {} /\ other = {S("foreign", 0)} /\ state = "run" /\ i = 1
Step == /\ i <= Len(Steps) /\ state = "run" /\ i' = i + 1
        /\ LET s == Steps[i] IN
           CASE s[1] = "c" -> mine' = mine \cup {s[2]} /\ UNCHANGED plots
             [] s[1] = "d" -> mine' = (IF s[2][1] \o ToString(s[2][2]) \in Keep THEN mine ELSE mine \ {s[2]}) /\ UNCHANGED plots
             [] s[1] = "r" -> mine' = (mine \ {s[2]}) \cup {s[3]} /\ plots' = {s[3]}
        /\ UNCHANGED <<other, state>>
Fail == state = "run" /\ state' = "failed" /\ UNCHANGED <<mine, plots, other, i>>
End == i > Len(Steps) /\ state = "run" /\ state' = "ok" /\ UNCHANGED <<mine, plots, other, i>>
Next == Step \/ Fail \/ End
Spec == Init /\ [][Next]_vars
NoDangling == \A n \in 1 .. Len(Steps) : n = i => (Steps[n][1] = "d" => Steps[n][2] \in mine)
FTypeOK == F!FTypeOK
Strangers == F!Strangers
Clean == F!Clean
Refines == F!FSpec
KeepAll == {Steps[n][2] : n \in {m \in 1 .. Len(Steps) : Steps[m][1] = "d"}}
=============================================================================
