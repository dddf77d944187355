---------------------------- MODULE ConfigTrace ----------------------------
(* Validation of recorded option settings against Config.                   *)
EXTENDS Config, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES sid, pos

Ev(i) == Traces[sid].ev[i]
Val(key, v) ==
    IF key \in Flags \cup ThrFlags \cup {"order-heuristic"} THEN v = <<"1">>
    ELSE IF key = "translate-pb" THEN Decimal(v).v ELSE Num(v)
\* The observed configuration; blind recordings lack it.
Shown(e) == "glob" \in DOMAIN e
ObsGlob(e, shift) == [ k \in GlobKeys |-> IF k = "shift-constraints" THEN shift ELSE Val(k, e.glob[k]) ]
Conf(c) == [ k \in ThrKeys |-> Val(k, c[k]) ]
ObsThr(e) == LET cs == [ i \in 1..Len(e.thr) |-> Conf(e.thr[i]) ]
                 d == Conf(e.def)
             IN [ t \in Threads |-> IF t < Len(cs) THEN cs[t + 1] ELSE d ]
Matches(e) == Shown(e) => ObsGlob(e, glob'["shift-constraints"]) = glob' /\ ObsThr(e) = thr'

Step(e) ==
    CASE e.e = "conf" -> (e.ok = "1") = Valid(e.k, e.v) /\ Configure(e.k, e.v) /\ Matches(e)
      [] e.e = "other" -> UNCHANGED vars /\ Matches(e)       \* unknown option
      [] e.e = "validate" -> (e.ok = "1") = Consistent(glob) /\ UNCHANGED vars /\ Matches(e)
      [] e.e = "cli" -> (e.ok = "1") = CommandLineOk(e.args) /\ CommandLine(e.args) /\ (e.ok = "1" => Matches(e))
      [] e.e = "shift" -> (e.text = "1") = glob["shift-constraints"] /\ UNCHANGED vars
      [] e.e = "solve" ->
           /\ UNCHANGED vars
           /\ e.sat = "1"
           /\ NeedsDecide => e.decide = "1"
           /\ "solvers" \in DOMAIN e =>
                /\ Len(e.solvers) = e.n
                /\ \A t \in 1..e.n : Conf(e.solvers[t]) = thr[t - 1]

Init ==
    /\ sid \in 1..Len(Traces) /\ pos = 1
    /\ LET e == Traces[sid].init IN glob = ObsGlob(e, TRUE) /\ thr = ObsThr(e)
Next ==
    /\ pos <= Len(Traces[sid].ev)
    /\ Step(Ev(pos))
    /\ pos' = pos + 1
    /\ UNCHANGED sid
    /\ pos = Len(Traces[sid].ev) => PrintT(<<"ACCEPT", Traces[sid].id>>)
Spec == Init /\ [][Next]_<<sid, pos, glob, thr>>
=============================================================================
