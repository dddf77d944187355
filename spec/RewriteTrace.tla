---------------------------- MODULE RewriteTrace ----------------------------
(* Statements recorded before and after rewriting, in the order in which they *)
(* have been given and under changing settings.                              *)
EXTENDS Rewrite, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES sid, l
Ev == Traces[sid].ev[l]

TraceInit == sid \in 1..Len(Traces) /\ l = 1
TraceNext ==
    \/ /\ l <= Len(Traces[sid].ev)
       /\ Rewrites(Ev.stm, Ev.con, Ev.pool, Ev.out)
       /\ l' = l + 1 /\ UNCHANGED sid
    \/ /\ l = Len(Traces[sid].ev) + 1
       /\ l' = l + 1
       /\ PrintT(<<"ACCEPT", Traces[sid].id>>)
       /\ UNCHANGED sid
TraceSpec == TraceInit /\ [][TraceNext]_<<sid, l>>
=============================================================================
