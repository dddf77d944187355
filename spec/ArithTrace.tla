----------------------------- MODULE ArithTrace -----------------------------
(* Validation of the recorded outcome of programs over large integers.     *)
EXTENDS Arith, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES sid, done

Case == Traces[sid]
Obs == Case.obs
All(cs) == 1..Len(cs)

Plain(o, sols) ==
    /\ { [ m |-> o.ms[i].m, v |-> o.ms[i].v ] : i \in 1..Len(o.ms) } = sols
    /\ Cardinality(sols) = Len(o.ms)
    /\ \A i \in 1..Len(o.ms) : o.ms[i].cost = <<>>
Optimum(cs, o, sols) ==
    /\ \A i \in 1..Len(o.ms) :
         /\ [ m |-> o.ms[i].m, v |-> o.ms[i].v ] \in sols
         /\ o.ms[i].cost = <<CostOf(cs, o.ms[i].v, Len(cs))>>
         /\ i > 1 => BLt(o.ms[i].cost[1], o.ms[i - 1].cost[1])
    /\ sols # {} =>
         /\ o.ms # <<>>
         /\ \A s \in sols : BLeq(Last(o.ms).cost[1], CostOf(cs, s.v, Len(cs)))

Ok(cs, n, o) ==
    IF o.e = "reject" THEN ~MustAccept(cs, n)
    ELSE /\ o.e = "models" /\ o.ex
         /\ o.sat = (IF o.ms = <<>> THEN "unsat" ELSE "sat")
         /\ LET bad == BadCons(cs)
            IN IF bad # {} \/ BadObj(cs)
               \* a conflict may be found before the offending constraint is seen
               THEN o.ms = <<>> /\ Solutions(cs, All(cs) \ bad, n) = {}
               ELSE LET sols == Solutions(cs, All(cs), n)
                    IN IF HasObj(cs) THEN Optimum(cs, o, sols) ELSE Plain(o, sols)

Class(cs, n) == IF MustReject(cs) THEN "reject" ELSE IF MustAccept(cs, n) THEN "accept" ELSE "either"

Init == sid \in 1..Len(Traces) /\ done = FALSE
Next ==
    /\ ~done
    /\ PrintT(<<"CLASS", Class(Case.cs, Case.n)>>)
    /\ Ok(Case.cs, Case.n, Obs)
    /\ PrintT(<<"ACCEPT", Case.id>>)
    /\ done' = TRUE
    /\ UNCHANGED sid
Spec == Init /\ [][Next]_<<sid, done>>
=============================================================================
