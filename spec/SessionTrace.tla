---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Validation of recorded sessions against Session: every recorded event   *)
(* has to be an action of the specification.  Each session is an initial   *)
(* state; sessions whose last event has been matched print ACCEPT.  A       *)
(* session without such a line has been rejected at the first event that   *)
(* no action matches (with PROGRESS set, each matched event is printed).    *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Verbose == IOEnv.PROGRESS = "1"

VARIABLES sid, l
tvars == <<svars, sid, l>>

TraceInit ==
    /\ sid \in 1..Len(Traces)
    /\ l = 1
    /\ SessionInit(Traces[sid].na, Traces[sid].lo, Traces[sid].hi)

Ev == Traces[sid].ev[l]

Lits(as) == { <<as[i][1], as[i][2]>> : i \in 1..Len(as) }

\* The recorded values of shown variables agree with the recorded solution.
ShownOk(m, sh) == Len(sh) = Cardinality(Shown(prog)) /\ ToSet(sh) = ShownPart(prog, m)

TraceAdd ==
    /\ Ev.e = "add"
    /\ AddPart(Ev.sig, Ev.rules, Ev.cons, Ev.obj, ToSet(Ev.exts), Ev.facts,
               [ on |-> Ev.show.on, vars |-> ToSet(Ev.show.vars), sigs |-> ToSet(Ev.show.sigs) ])
TraceAssign  == Ev.e = "ext" /\ Ev.v # "none" /\ AssignExternal(Ev.i, Ev.v)
TraceRelease == Ev.e = "ext" /\ Ev.v = "none" /\ ReleaseExternal(Ev.i)
TraceBegin   == Ev.e = "begin" /\ SolveBegin(Lits(Ev.as))
\* The indices of variables in a recorded solution (not always recorded).
Handles(ix) == { <<i, ix[i]>> : i \in 1..Len(ix) }
TraceModel   ==
    /\ Ev.e = "model" /\ ModelFound(Ev.m)
    /\ Reveal(Handles(Ev.ix))
    /\ ShownOk(Ev.m, Ev.sh)
    /\ prog.hasobj => Ev.cost = best'
    /\ ~prog.hasobj => Ev.cost = <<>>
TraceEnd     ==
    /\ Ev.e = "end"
    /\ IF Ev.stop /\ ~Ev.ex THEN SolveInterrupted ELSE SolveEnd(Ev.ex, Ev.lim)
    /\ Ev.sat = Verdict(Ev.ex)
TraceSolve   ==
    /\ Ev.e = "solve" /\ SolveAll(Lits(Ev.as), [ i \in 1..Len(Ev.ms) |-> Ev.ms[i].m ])
    /\ \A i \in 1..Len(Ev.ms) : ShownOk(Ev.ms[i].m, Ev.ms[i].sh) /\ Ev.ms[i].cost = <<>>
    /\ Reveal(UNION { Handles(Ev.ms[i].ix) : i \in 1..Len(Ev.ms) })
    /\ Ev.ex
    /\ Ev.sat = (IF Ev.ms # <<>> THEN "sat" ELSE "unsat")
TraceLookup  ==
    /\ Ev.e = "lookup"
    /\ LET Q == ToSet(Ev.q) IN
       Lookup({ <<x[1], x[3]>> : x \in { x \in Q : x[2] } }, { x[1] : x \in { x \in Q : ~x[2] } })

\* The values of a call, read from the statistics.
AsFun(ps) == [ k \in { ps[i][1] : i \in 1..Len(ps) } |-> LET i == CHOOSE i \in 1..Len(ps) : ps[i][1] = k IN ps[i][2] ]
AtInterface == IF Ev.at = <<>> THEN <<>> ELSE <<[ Ev.at[1] EXCEPT !.threads = AsFun(@) ]>>
TraceStats   ==
    /\ Ev.e = "stats"
    /\ \/ Statistics(AsFun(Ev.step), AsFun(Ev.accu), Ev.own, Ev.scost, Ev.acost, AtInterface)
       \/ /\ StaleCost(AsFun(Ev.step), AsFun(Ev.accu), Ev.own, Ev.scost, Ev.acost, AtInterface)
          /\ PrintT(<<"KNOWN", Traces[sid].id, "stale-cost">>)

TraceNext ==
    \/ /\ l <= Len(Traces[sid].ev)
       /\ \/ TraceAdd \/ TraceAssign \/ TraceRelease
          \/ TraceBegin \/ TraceModel \/ TraceEnd \/ TraceSolve \/ TraceLookup \/ TraceStats
       /\ l' = l + 1 /\ UNCHANGED sid
       /\ Verbose => PrintT(<<"MATCH", Traces[sid].id, l>>)
    \/ /\ l = Len(Traces[sid].ev) + 1
       /\ l' = l + 1
       /\ PrintT(<<"ACCEPT", Traces[sid].id>>)
       /\ UNCHANGED <<svars, sid>>

TraceSpec == TraceInit /\ [][TraceNext]_tvars

=============================================================================
