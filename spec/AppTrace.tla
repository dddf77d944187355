------------------------------ MODULE AppTrace ------------------------------
(* Validation of what the command line application prints: the application   *)
(* performs one solve call of Session on a program with a single part, and   *)
(* prints the visible part of each solution and the verdict.                 *)
EXTENDS Session, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES sid, l
tvars == <<svars, sid, l>>
Ev == Traces[sid].ev[l]

\* What is visible of a solution: visible true atoms and values of shown variables.
Bit(mask, i) == (mask \div 2^(i - 1)) % 2 = 1
View(m, vis) == <<{ i \in vis : Bit(m[1], i) }, ShownPart(prog, m)>>
Seen(o) == <<ToSet(o.a), ToSet(o.sh)>>
NoRepetition(o) == Cardinality(ToSet(o.a)) = Len(o.a) /\ Cardinality(ToSet(o.sh)) = Len(o.sh)

\* Without a number of solutions on the command line (-1), one is computed, or
\* an optimal one if there is an objective.
Limit(k) == IF k >= 0 THEN k ELSE IF prog.hasobj THEN 0 ELSE 1

TraceAdd ==
    /\ Ev.e = "add"
    /\ AddPart(Ev.sig, Ev.rules, Ev.cons, Ev.obj, ToSet(Ev.exts), Ev.facts,
               [ on |-> Ev.show.on, vars |-> ToSet(Ev.show.vars), sigs |-> ToSet(Ev.show.sigs) ])
TraceBegin == Ev.e = "begin" /\ SolveBegin({})

\* An answer of a call with an objective: some remaining solution looks like
\* this and has the reported cost (they all have the same effect).
TraceAnswer ==
    /\ Ev.e = "answer" /\ prog.hasobj /\ NoRepetition(Ev)
    /\ LET vis == ToSet(Ev.vis)
           ms == { m \in left : <<Cost(prog, m)>> = Ev.cost /\ View(m, vis) = Seen(Ev) }
       IN ms # {} /\ ModelFound(CHOOSE m \in ms : TRUE)
    /\ handle' = handle

\* All answers of a call without an objective, with the number of times that
\* each of them has been given: there are as many solutions that look like this.
TraceAnswers ==
    /\ Ev.e = "answers" /\ phase = "solving" /\ ~prog.hasobj
    /\ \A i \in 1..Len(Ev.g) : NoRepetition(Ev.g[i]) /\ Ev.g[i].cost = <<>>
    /\ LET vis == ToSet(Ev.vis)
           all == { <<View(m, vis), m>> : m \in left }
           num == FoldLeft(+, 0, [ i \in 1..Len(Ev.g) |-> Ev.g[i].n ])
       IN /\ \A i \in 1..Len(Ev.g) :
               LET v == Seen(Ev.g[i]) IN Cardinality({ p \in all : p[1] = v }) >= Ev.g[i].n
          /\ Cardinality({ Seen(Ev.g[i]) : i \in 1..Len(Ev.g) }) = Len(Ev.g)
          /\ count' = num
          \* which of those that look the same remains does not matter
          /\ left' = IF num = Cardinality(left) THEN {} ELSE left
    /\ UNCHANGED <<prog, phase, best, known, handle, totals>>
TraceEnd ==
    /\ Ev.e = "end" /\ SolveEnd(Ev.ex, Limit(Ev.n))
    /\ Ev.sat = (IF count > 0 THEN "sat" ELSE "unsat")
    /\ Ev.models = count
    /\ Limit(Ev.n) > 0 => count <= Limit(Ev.n)

\* The bound for the next solution is outside the supported range (only with
\* scaled objectives): the run ends with an error after some of the answers.
TraceOutside == Ev.e = "outside" /\ prog.hasobj /\ UNCHANGED svars

TraceInit ==
    /\ sid \in 1..Len(Traces) /\ l = 1
    /\ SessionInit(Traces[sid].na, Traces[sid].lo, Traces[sid].hi)
TraceNext ==
    \/ /\ l <= Len(Traces[sid].ev)
       /\ TraceAdd \/ TraceBegin \/ TraceAnswer \/ TraceAnswers \/ TraceEnd \/ TraceOutside
       /\ l' = l + 1 /\ UNCHANGED sid
    \/ /\ l = Len(Traces[sid].ev) + 1
       /\ l' = l + 1
       /\ PrintT(<<"ACCEPT", Traces[sid].id>>)
       /\ UNCHANGED <<svars, sid>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
