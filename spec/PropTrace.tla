----------------------------- MODULE PropTrace -----------------------------
(***************************************************************************)
(* Validation of recorded propagation against Propagation, in the style of *)
(* SessionTrace.                                                           *)
(***************************************************************************)
EXTENDS Propagation, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Verbose == IOEnv.PROGRESS = "1"

VARIABLES sid, l
tvars == <<store, costs, stack, mean, sid, l>>

TraceInit == PropInit /\ sid \in 1..Len(Traces) /\ l = 1

Ev == Traces[sid].ev[l]

TraceStart  == Ev.k = "init" /\ StartStep(Ev.cons, Ev.bs, Ev.o)
TraceProp   == Ev.k = "pr" /\ Propagated(Ev.th, Ev.dl, Ev.b)
TraceUndo   == Ev.k = "un" /\ Undone(Ev.th, Ev.dl, Ev.b)
TraceClause == Ev.k = "cl" /\ AddClause(Ev.th, Ev)
TraceFix    == Ev.k = "fix" /\ Fixpoint(Ev.th, Ev.dl, Ev.b, Ev.t, Ev.o, Ev.free)
TraceStrong == Ev.k = "str" /\ Strong(Ev.th, Ev.b, Ev.ct, Ev.mb)
TraceModel  == Ev.k = "model" /\ Reported(Ev.th, Ev.b, Ev.c)

TraceNext ==
    \/ /\ l <= Len(Traces[sid].ev)
       /\ \/ TraceStart \/ TraceProp \/ TraceUndo \/ TraceClause \/ TraceFix \/ TraceStrong \/ TraceModel
       /\ l' = l + 1 /\ UNCHANGED sid
       /\ Verbose => PrintT(<<"MATCH", Traces[sid].id, l>>)
    \/ /\ l = Len(Traces[sid].ev) + 1
       /\ l' = l + 1
       /\ PrintT(<<"ACCEPT", Traces[sid].id>>)
       /\ UNCHANGED <<store, costs, stack, mean, sid>>

TraceSpec == TraceInit /\ [][TraceNext]_tvars

=============================================================================
