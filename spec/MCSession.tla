----------------------------- MODULE MCSession -----------------------------
(***************************************************************************)
(* Design properties of solving sessions, checked exhaustively for a small *)
(* catalogue of program parts, externals, and assumptions: what a call      *)
(* reports in which order, when it may end, and that calls do not affect    *)
(* each other.                                                              *)
(***************************************************************************)
EXTENDS Session

CONSTANTS MaxCalls, MaxChanges

Num(i) == [ o |-> "n", v |-> i ]
Var(i) == [ o |-> "v", v |-> i ]
Mul(i, e) == [ o |-> "*", l |-> Num(i), r |-> e ]
El(e) == [ e |-> e, c |-> <<>> ]
Sum(els, op, r) == [ k |-> "sum", el |-> els, op |-> op, rhs |-> Num(r), g |-> <<>>, schema |-> FALSE ]
Choice(as) == [ h |-> "c", g |-> <<>>, hs |-> as, b |-> <<>> ]
Req(c, b) == [ h |-> "t", g |-> <<>>, hs |-> <<c>>, b |-> b ]
Not(b) == [ h |-> "n", g |-> <<>>, hs |-> <<>>, b |-> b ]
Fact(a, b) == [ h |-> "a", g |-> <<>>, hs |-> <<a>>, b |-> b ]
At(i) == [ k |-> "a", i |-> i, n |-> 0 ]
NoAt(i) == [ k |-> "a", i |-> i, n |-> 1 ]
Th(i) == [ k |-> "t", i |-> i, n |-> 0 ]

All == [ on |-> FALSE, vars |-> {}, sigs |-> {} ]
Part(sig, rules, cons, obj, exts) == [ sig |-> sig, rules |-> rules, cons |-> cons, obj |-> obj, exts |-> exts ]

\* Parts are added in this order; each refers to constraints of all before it.
Parts == <<
    Part(<<"x">>, <<Choice(<<1>>), Req(1, <<At(1)>>)>>, <<Sum(<<El(Var(1))>>, ">=", 1)>>, <<>>, {2}),
    Part(<<"y">>, <<Req(2, <<NoAt(2)>>), Not(<<Th(3), At(1)>>)>>,
         <<Sum(<<El(Var(1)), El(Mul(-1, Var(2)))>>, "!=", 0), Sum(<<El(Var(2))>>, "=", 2)>>,
         <<[ s |-> 1, el |-> El(Var(1)) ]>>, {}),
    Part(<<>>, <<Req(4, <<At(2)>>), Not(<<NoAt(1), NoAt(2)>>)>>, <<Sum(<<El(Var(1)), El(Var(2))>>, "<=", 2)>>,
         <<[ s |-> -1, el |-> El(Mul(2, Var(2))) ]>>, {}) >>
Assumptions == { {}, {<<1, TRUE>>}, {<<1, FALSE>>, <<2, TRUE>>} }

VARIABLES parts, changes, calls, \* budget
          given, rep, costs,     \* solutions at the start of the call, those reported, and their costs in order
          done                   \* how the last call ended
mvars == <<svars, parts, changes, calls, given, rep, costs, done>>

Init ==
    /\ SessionInit(2, 0, 2)
    /\ parts = 0 /\ changes = 0 /\ calls = 0 /\ given = {} /\ rep = {} /\ costs = <<>> /\ done = "none"

Add == /\ parts < Len(Parts) /\ parts' = parts + 1
       /\ LET p == Parts[parts + 1] IN AddPart(p.sig, p.rules, p.cons, p.obj, p.exts, <<>>, All)
       /\ UNCHANGED <<changes, calls, given, rep, costs, done>>
External ==
    /\ changes < MaxChanges /\ changes' = changes + 1
    /\ \E i \in 1..2 : ReleaseExternal(i) \/ \E v \in {"true", "false", "free"} : v # prog.ext[i] /\ AssignExternal(i, v)
    /\ UNCHANGED <<parts, calls, given, rep, costs, done>>
Begin ==
    /\ calls < MaxCalls /\ calls' = calls + 1
    /\ \E As \in Assumptions : SolveBegin(As) /\ given' = Solutions(prog, As)
    /\ rep' = {} /\ costs' = <<>> /\ done' = "none"
    /\ UNCHANGED <<parts, changes>>
Model ==
    /\ \E m \in left : ModelFound(m) /\ rep' = rep \cup {m}
                    /\ costs' = IF prog.hasobj THEN Append(costs, Cost(prog, m)) ELSE costs
    /\ UNCHANGED <<handle, parts, changes, calls, given, done>>
End ==
    /\ \/ SolveEnd(TRUE, 0) /\ done' = "exhausted"
       \/ \E k \in 1..2 : SolveEnd(FALSE, k) /\ done' = "stopped"
       \/ SolveInterrupted /\ done' = "interrupted"
    /\ UNCHANGED <<parts, changes, calls, given, rep, costs>>

Next == Add \/ External \/ Begin \/ Model \/ End
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Model) /\ WF_mvars(End)

Least(S) == CHOOSE x \in S : \A y \in S : x <= y

\* Reported solutions are solutions, reported once, each better than the one before.
Sound == /\ rep \subseteq given /\ Cardinality(rep) = count
         /\ \A i \in 1..Len(costs) - 1 : costs[i] > costs[i + 1]
\* What may still be reported is all that has not been excluded.
Complete == phase = "solving" =>
    left = { m \in given : IF prog.hasobj THEN \A r \in rep : Cost(prog, m) < Cost(prog, r)
                                           ELSE m \notin rep }
\* A call that was not stopped has reported everything or an optimum.
Exhausted == [][ (phase = "solving" /\ phase' = "idle" /\ done' = "exhausted") =>
    /\ (given = {}) <=> (rep = {})
    /\ ~prog.hasobj => rep = given
    /\ prog.hasobj /\ given # {} => best = <<Least({ Cost(prog, m) : m \in given })>> /\ \E r \in rep : Cost(prog, r) = best[1] ]_mvars
\* Calls neither change the program nor affect what later calls report.
Independent == [][ (phase = "idle" /\ phase' = "solving") =>
    /\ prog' = prog /\ left' = given' /\ best' = <<>> /\ count' = 0
    /\ \E As \in Assumptions : left' = Solutions(prog, As) ]_mvars
Frozen == [][ phase = "solving" => prog' = prog ]_mvars
\* Assumptions restrict the solutions and do nothing else.
OnlyRestrict == phase = "idle" /\ calls < MaxCalls => \A As \in Assumptions :
    Solutions(prog, As) = { m \in Solutions(prog, {}) : \A x \in As : (((m[1] \div (2 ^ (x[1] - 1))) % 2) = 1) <=> x[2] }
\* Every call ends.
Ends == (phase = "solving") ~> (phase = "idle")
=============================================================================
