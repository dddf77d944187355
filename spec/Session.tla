------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* The state machine of a solving session: program parts are added,        *)
(* externals are assigned or released, and solve calls report solutions    *)
(* one at a time.  With an objective, a reported solution imposes the bound *)
(* that later solutions of the same call have to improve on; the bound,    *)
(* assumptions and reported solutions do not survive the call.             *)
(***************************************************************************)
EXTENDS CASP

VARIABLES prog,    \* the accumulated program
          phase,   \* "idle" or "solving"
          left,    \* solutions that may still be reported in this call
          count,   \* number of solutions reported in this call
          best,    \* cost of the last reported solution of this call (<<>> if none)
          known,   \* number of variables that occurred in a solution so far
          handle,  \* indices of variables revealed so far (a partial function)
          totals   \* accumulated statistics: values by name, variables counted, last reported cost

svars == <<prog, phase, left, count, best, known, handle, totals>>

EmptyProg(na, lo, hi) ==
    [ n |-> 0, na |-> na, lo |-> lo, hi |-> hi, rules |-> <<>>, cons |-> <<>>, inst |-> <<>>,
      obj |-> <<>>, ext |-> [ i \in 1..na |-> "none" ], facts |-> <<>>, hasobj |-> FALSE,
      sig |-> <<>>, show |-> [ on |-> FALSE, vars |-> {}, sigs |-> {} ] ]

SessionInit(na, lo, hi) ==
    /\ prog = EmptyProg(na, lo, hi)
    /\ phase = "idle" /\ left = {} /\ count = 0 /\ best = <<>>
    /\ known = 0 /\ handle = <<>>
    /\ totals = [ vals |-> <<>>, vars |-> 0, cost |-> <<>> ]

\* Rules with parameters (g is the condition binding them) stand for their
\* instances; the constraints occurring in them are instantiated, too.
AtomInst(at, k) == IF at.k = "t" THEN [at EXCEPT !.i = -k] ELSE at

RuleInst(r, cons, inst, env) ==
    LET hs == IF r.h = "t" THEN r.hs ELSE <<>>
        refs == hs \o [ j \in 1..Len(r.b) |-> IF r.b[j].k = "t" THEN r.b[j].i ELSE 0 ]
        new == [ j \in 1..Len(refs) |-> IF refs[j] = 0 THEN [k |-> "dom", iv |-> <<>>] ELSE [cons[refs[j]] EXCEPT !.g = env] ]
        n == Len(inst)
    IN  << [ h |-> r.h, g |-> <<>>, hs |-> IF r.h = "t" THEN <<-(n + 1)>> ELSE r.hs,
             b |-> [ j \in 1..Len(r.b) |-> AtomInst(r.b[j], n + Len(hs) + j) ] ], inst \o new >>

RECURSIVE RuleInsts(_, _, _, _, _)
RuleInsts(r, cons, envs, done, inst) ==
    IF envs = {} THEN <<done, inst>>
    ELSE LET env == CHOOSE x \in envs : TRUE
             x == RuleInst(r, cons, inst, env)
         IN  RuleInsts(r, cons, envs \ {env}, Append(done, x[1]), x[2])

RECURSIVE Ground(_, _, _, _, _)
Ground(rules, cons, facts, done, inst) ==
    IF rules = <<>> THEN <<done, inst>>
    ELSE IF Head(rules).g = <<>> THEN Ground(Tail(rules), cons, facts, Append(done, Head(rules)), inst)
    ELSE LET x == RuleInsts(Head(rules), cons, Envs(Head(rules).g, facts, {<<>>}), <<>>, inst)
         IN  Ground(Tail(rules), cons, facts, done \o x[1], x[2])

\* The program extended by a part, which introduces the variables with the
\* signatures in sig, rules, constraints, objective elements, external atoms,
\* tables, and show statements.
Extend(P, sig, rules, cons, obj, exts, facts, show) ==
    LET gr == Ground(rules, P.cons \o cons, P.facts \o facts, <<>>, P.inst) IN
    [ P EXCEPT !.n = @ + Len(sig), !.sig = @ \o sig,
               !.rules = @ \o gr[1], !.cons = @ \o cons, !.inst = gr[2], !.obj = @ \o obj,
               !.ext = [ i \in 1..P.na |-> IF i \in exts THEN "false" ELSE @[i] ],
               !.facts = @ \o facts, !.hasobj = @ \/ \E i \in DOMAIN obj : Instances(obj[i].el, P.facts \o facts, <<>>) # {},
               !.show = [ on |-> @.on \/ show.on, vars |-> @.vars \cup show.vars,
                          sigs |-> @.sigs \cup show.sigs ] ]

AddPart(sig, rules, cons, obj, exts, facts, show) ==
    /\ phase = "idle"
    /\ prog' = Extend(prog, sig, rules, cons, obj, exts, facts, show)
    /\ UNCHANGED <<phase, left, count, best, known, handle, totals>>

AssignExternal(i, v) ==
    /\ phase = "idle" /\ prog.ext[i] \in {"true", "false", "free"}
    /\ prog' = [ prog EXCEPT !.ext[i] = v ]
    /\ UNCHANGED <<phase, left, count, best, known, handle, totals>>

ReleaseExternal(i) ==
    /\ phase = "idle"
    /\ prog' = [ prog EXCEPT !.ext[i] = "none" ]
    /\ UNCHANGED <<phase, left, count, best, known, handle, totals>>

SolveBegin(As) ==
    /\ phase = "idle" /\ phase' = "solving"
    /\ left' = Solutions(prog, As) /\ count' = 0 /\ best' = <<>>
    /\ UNCHANGED <<prog, known, handle, totals>>

\* The symbols representing the assignment in a reported solution.
ShownPart(P, m) == { <<i, m[i + 1]>> : i \in Shown(P) }

ModelFound(m) ==
    /\ phase = "solving" /\ m \in left
    /\ count' = count + 1
    /\ IF prog.hasobj
       THEN LET c == Cost(prog, m) IN
            /\ best' = <<c>>
            /\ left' = { x \in left : Cost(prog, x) < c }
       ELSE /\ best' = <<>> /\ left' = left \ {m}
    /\ known' = prog.n
    /\ UNCHANGED <<prog, phase, totals>>

\* The call ends with nothing left to report unless it was stopped, which
\* happens after the given number of solutions (0 for no limit).
SolveEnd(exhausted, limit) ==
    /\ phase = "solving" /\ phase' = "idle"
    /\ exhausted => left = {}
    /\ ~exhausted => limit > 0 /\ count = limit
    /\ left' = {} /\ UNCHANGED <<prog, count, best, known, handle, totals>>

\* A call may be interrupted at any time (limits on the search, cancellation).
SolveInterrupted ==
    /\ phase = "solving" /\ phase' = "idle"
    /\ left' = {} /\ UNCHANGED <<prog, count, best, known, handle, totals>>

\* What a call concludes from the solutions it has reported.
Verdict(exhausted) == IF count > 0 THEN "sat" ELSE IF exhausted THEN "unsat" ELSE "unknown"

\* A complete call without an objective at once: the sequence of solutions ms.
SolveAll(As, ms) ==
    /\ phase = "idle" /\ ~prog.hasobj
    /\ LET set == { ms[i] : i \in 1..Len(ms) } IN
       /\ Cardinality(set) = Len(ms)
       /\ set = Solutions(prog, As)
    /\ count' = Len(ms) /\ best' = <<>>
    /\ known' = IF ms # <<>> THEN prog.n ELSE known
    /\ UNCHANGED <<prog, phase, left, totals>>

\* Variables are referred to by indices, which do not change during a session.
\* R is a set of pairs of variables and indices.
Consistent(h, R) ==
    /\ \A x \in R : x[1] \in DOMAIN h => h[x[1]] = x[2]
    /\ \A x, y \in R \cup { <<i, h[i]>> : i \in DOMAIN h } : x[2] = y[2] => x[1] = y[1]
Reveal(R) ==
    /\ Consistent(handle, R)
    /\ handle' = [ i \in DOMAIN handle \cup { x[1] : x \in R } |->
                    IF i \in DOMAIN handle THEN handle[i] ELSE (CHOOSE x \in R : x[1] = i)[2] ]

\* Variables that occurred in solutions and those found before are found, and
\* nothing that is not a variable of the program (a program without solutions
\* may be given up before all its variables have been seen).  R are the
\* variables found with their indices, F the names not found.
Lookup(R, F) ==
    /\ phase = "idle"
    /\ \A x \in R : x[1] \in 1..prog.n /\ x[2] >= 0
    /\ F \cap (1..known \cup DOMAIN handle) = {}
    /\ Reveal(R)
    /\ UNCHANGED <<prog, phase, left, count, best, known, totals>>

-----------------------------------------------------------------------------
(* Statistics are read once after each solve call.                          *)

Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0

\* The accumulated values are the sums over all steps.
AddsUp(old, step, accu) ==
    /\ DOMAIN accu = DOMAIN old \cup DOMAIN step
    /\ \A k \in DOMAIN accu : accu[k] = Get(old, k) + Get(step, k)

\* Names of the values that count things, which are never negative (constraints
\* of earlier steps may be removed).
Signed == {"Problem/Constraints"}

\* The variables introduced since the last call (a program without solutions
\* may be given up before all its variables have been seen).
StepVariables(k) == /\ k <= prog.n - totals.vars
                    /\ count > 0 => k = prog.n - totals.vars

\* The cost of translated objectives is handled and reported by the solver.
OwnCost(own) == IF own THEN best ELSE <<>>

\* The values step and accu are read after a call, where cost is the reported
\* cost in each of them (<<>> if there is none), own states whether the
\* objective was not translated, and at is what happened at the
\* interface to the solver since the last call (<<>> if this was not recorded).
Statistics(step, accu, own, scost, acost, at) ==
    /\ phase = "idle"
    /\ AddsUp(totals.vals, step, accu)
    /\ \A k \in DOMAIN step \ Signed : step[k] >= 0
    /\ \A k \in DOMAIN accu : accu[k] >= 0
    /\ StepVariables(Get(step, "Problem/Variables"))
    /\ Get(step, "Translate/Clauses") <= Get(step, "Problem/Clauses")
    /\ Get(step, "Translate/Literals") <= Get(step, "Problem/Literals")
    /\ scost = OwnCost(own) /\ acost = OwnCost(own)
    /\ at # <<>> =>
         /\ Get(step, "Problem/Literals") = at[1].literals
         /\ Get(step, "Problem/Clauses") >= at[1].clauses
         /\ Get(step, "Translate/Weight constraints") >= at[1].weights
         /\ count > 0 => /\ Get(step, "Problem/Clauses") = at[1].clauses
                         /\ Get(step, "Translate/Weight constraints") = at[1].weights
                         /\ Get(accu, "Problem/Constraints") = at[1].cons
         /\ \A k \in DOMAIN at[1].threads : Get(step, k) = at[1].threads[k]
    /\ totals' = [ vals |-> accu, vars |-> totals.vars + Get(step, "Problem/Variables"),
                   cost |-> IF OwnCost(own) = <<>> THEN totals.cost ELSE best ]
    /\ UNCHANGED <<prog, phase, left, count, best, known, handle>>

\* clingo keeps values of earlier calls: the cost cannot be withdrawn after a
\* call without solutions.
StaleCost(step, accu, own, scost, acost, at) ==
    /\ OwnCost(own) = <<>> /\ totals.cost # <<>>
    /\ scost = totals.cost /\ acost = totals.cost
    /\ Statistics(step, accu, FALSE, <<>>, <<>>, at)

=============================================================================
