----------------------------- MODULE OptionsTrace -----------------------------
(***************************************************************************)
(* Runs of the real program with assignments of options.  obs: res -       *)
(* "refused" (ended with non-zero status before anything was plotted),     *)
(* "zero" (ended with status 0 without plotting), "started" (stopped at    *)
(* the first file of a plot), "made" (run to the end); left: files left    *)
(* behind (other than plots); for "made": hdr, what the plot's header      *)
(* says, and where it is.                                                  *)
(***************************************************************************)
EXTENDS Options, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, ph
Init == c \in 1 .. Len(Runs) /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, ph>>
R == Runs[c]
V == Verdict(R.o, R.kmax)
Expected == ph = 1 => /\ V = "refuse" => R.res = "refused"
                      /\ V = "start" => R.res \in {"started", "made"}
                      /\ V = "either" => R.res \in {"refused", "started", "made"}
NothingLeft == ph = 1 => (R.res \in {"refused", "made"} => R.left = 0)
\* a finished plot is the one that was asked for
AsAsked == ph = 1 /\ R.res = "made" =>
   /\ R.hdr.n = 1                                          \* one plot
   /\ R.hdr.k = Given(R.o.k, 32)
   /\ R.o.i = "ok" => R.hdr.id = R.want.id
   /\ R.hdr.owner = (IF R.o.c = "ok" THEN R.want.contract ELSE R.want.pool)
   /\ R.hdr.farmer = R.want.farmer
   /\ R.hdr.rest = 32                                      \* bytes of the secret
   /\ R.hdr.name.k = R.hdr.k /\ R.hdr.name.id = R.hdr.id  \* and its file name says so
   /\ R.hdr.dir = (IF R.o.d = "ok" THEN "d" ELSE "t")
=============================================================================
