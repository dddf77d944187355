---------------------------- MODULE Propagation ----------------------------
(***************************************************************************)
(* Lazy clause generation.  A step has a store of constraints over integer *)
(* variables, each attached to a literal and in force while the literal is *)
(* true.  Each thread keeps bounds for the variables and order literals    *)
(* standing for `variable at most value'.  The propagator may add clauses   *)
(* to the Boolean solver, but only such that follow from the meaning of    *)
(* order literals or from a single constraint in force, and from the       *)
(* objective bound only as removable clauses.  At fixpoints the bounds and *)
(* the truth of order literals determine each other, and undoing decision  *)
(* levels restores the bounds of the remaining assignment.                 *)
(*                                                                         *)
(* Bounds are sequences of pairs <<lower, upper>>, one for each variable.  *)
(* An order literal is a triple <<literal, variable, value>>.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

TrueLit == 1

VARIABLES store,  \* the constraints of the current step
          costs,  \* costs of the solutions reported in this step
          stack,  \* for each thread, the bounds reached on the decision levels
          mean    \* for each thread, the meaning of order literals

pvars == <<store, costs, stack, mean>>

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
Range(s) == { s[i] : i \in 1..Len(s) }

---------------------------------------------------------------------------
(* Constraints under bounds                                                *)

\* The smallest value of a linear sum, a sequence of <<coefficient, variable>>.
RECURSIVE SumLow(_, _, _)
SumLow(e, i, b) ==
    IF i > Len(e) THEN 0
    ELSE e[i][1] * (IF e[i][1] > 0 THEN b[e[i][2]][1] ELSE b[e[i][2]][2]) + SumLow(e, i + 1, b)

RECURSIVE SumVal(_, _, _)
SumVal(e, i, a) == IF i > Len(e) THEN 0 ELSE e[i][1] * a[e[i][2]] + SumVal(e, i + 1, a)

\* Whether a constraint holds for given values of its variables.
Holds(c, a) ==
    CASE c.k = "sum" -> SumVal(c.e, 1, a) <= c.r
      [] c.k = "nl"  -> c.a * a[c.x] * a[c.y] + c.b * a[c.z] <= c.r
      [] c.k = "distinct" ->
            \A i, j \in 1..Len(c.e) : i < j =>
                c.e[i].f + SumVal(c.e[i].t, 1, a) # c.e[j].f + SumVal(c.e[j].t, 1, a)
      [] c.k = "disjoint" ->
            \A i, j \in 1..Len(c.e) : i < j =>
                \/ a[c.e[i][2]] + c.e[i][1] <= a[c.e[j][2]]
                \/ a[c.e[j][2]] + c.e[j][1] <= a[c.e[i][2]]

Vars(c) ==
    CASE c.k \in {"sum", "disjoint"} -> { c.e[i][2] : i \in 1..Len(c.e) }
      [] c.k = "nl" -> {c.x, c.y} \cup (IF c.b # 0 THEN {c.z} ELSE {})
      [] c.k = "distinct" -> UNION { { c.e[i].t[j][2] : j \in 1..Len(c.e[i].t) } : i \in 1..Len(c.e) }

\* Whether some values within the bounds b, extending the partial assignment a,
\* satisfy the constraint.
RECURSIVE Feasible(_, _, _, _)
Feasible(c, vs, a, b) ==
    IF vs = {} THEN Holds(c, a)
    ELSE LET v == CHOOSE v \in vs : TRUE IN
         \E x \in b[v][1]..b[v][2] : Feasible(c, vs \ {v}, [ a EXCEPT ![v] = x ], b)

Infeasible(c, b) ==
    IF c.k = "sum" THEN SumLow(c.e, 1, b) > c.r
    ELSE ~Feasible(c, Vars(c), [ v \in 1..Len(b) |-> 0 ], b)

---------------------------------------------------------------------------
(* Clauses.  cl.l are the literals, cl.o the order literals among them (with *)
(* either sign), cl.t the bounds on the top level, cl.top the literals true  *)
(* on the top level, cl.mb the bound of the objective (<<>> if none)        *)

\* The bounds implied by all literals of the clause being false.
FalseBounds(cl) ==
    LET S == Range(cl.l)
        los(v) == { cl.o[i][3] + 1 : i \in { i \in 1..Len(cl.o) : cl.o[i][2] = v /\ cl.o[i][1] \in S } }
        his(v) == { cl.o[i][3] : i \in { i \in 1..Len(cl.o) : cl.o[i][2] = v /\ -cl.o[i][1] \in S } }
        lo(v) == CHOOSE x \in los(v) \cup {cl.t[v][1]} : \A y \in los(v) \cup {cl.t[v][1]} : y <= x
        hi(v) == CHOOSE x \in his(v) \cup {cl.t[v][2]} : \A y \in his(v) \cup {cl.t[v][2]} : x <= y
    IN  [ v \in 1..Len(cl.t) |-> <<lo(v), hi(v)>> ]

EmptyBounds(b) == \E v \in 1..Len(b) : b[v][1] > b[v][2]

\* The literal of the constraint is true if all literals of the clause are false.
InForce(c, cl) == c.lit = TrueLit \/ c.lit \in Range(cl.top) \/ -c.lit \in Range(cl.l)

Removable(cl) == cl.type \in {2, 3}

\* The clause follows from the meaning of order literals ...
ByOrder(cl, b) == EmptyBounds(b) \/ TrueLit \in Range(cl.l)
\* ... from a constraint ...
ByConstraint(cl, b) == \E c \in Range(store) : c.k # "min" /\ InForce(c, cl) /\ Infeasible(c, b)
\* ... or from the objective having to improve on a reported solution.
ByObjective(cl, b) ==
    /\ Removable(cl) /\ cl.mb # <<>>
    /\ \E c \in Range(store) :
        /\ c.k = "min"
        /\ \E x \in costs : x - 1 + c.r = cl.mb[1]
        /\ SumLow(c.e, 1, b) > cl.mb[1]

Justification(cl) ==
    LET b == FalseBounds(cl) IN
    IF ByOrder(cl, b) THEN "order"
    ELSE IF ByConstraint(cl, b) THEN "constraint"
    ELSE IF ByObjective(cl, b) THEN "objective"
    ELSE "none"

---------------------------------------------------------------------------
(* Fixpoints                                                               *)

\* o are order literals with their truth values (1 true, 0 false, 2 open), t
\* the bounds on the top level.
BoundsMatch(b, t, o) ==
    /\ \A v \in 1..Len(b) :
        /\ t[v][1] <= b[v][1] /\ b[v][1] <= b[v][2] /\ b[v][2] <= t[v][2]
        \* tightened bounds are due to an order literal
        /\ b[v][2] < t[v][2] => \E i \in 1..Len(o) : o[i][2] = v /\ o[i][3] = b[v][2] /\ o[i][4] = 1
        /\ t[v][1] < b[v][1] => \E i \in 1..Len(o) : o[i][2] = v /\ o[i][3] = b[v][1] - 1 /\ o[i][4] = 0
    \* order literals are exactly as true as the bounds tell
    /\ \A i \in 1..Len(o) :
        LET x == o[i] IN
        /\ x[4] = 1 <=> b[x[2]][2] <= x[3]
        /\ x[4] = 0 <=> x[3] < b[x[2]][1]

\* The positive literal with the order literal it (or its complement) is.
Meaning(x) == [ sign |-> x[1] > 0, v |-> x[2], val |-> x[3] ]
Literals(o) == { i \in 1..Len(o) : Abs(o[i][1]) # TrueLit }

MeaningKept(m, o) ==
    /\ \A i \in Literals(o) : Abs(o[i][1]) \in DOMAIN m => m[Abs(o[i][1])] = Meaning(o[i])
    /\ \A i, j \in Literals(o) : Abs(o[i][1]) = Abs(o[j][1]) => i = j

MeaningAdd(m, o) ==
    LET new == { Abs(o[i][1]) : i \in Literals(o) }
        at(l) == CHOOSE i \in Literals(o) : Abs(o[i][1]) = l
    IN  [ l \in DOMAIN m \cup new |-> IF l \in DOMAIN m THEN m[l] ELSE Meaning(o[at(l)]) ]

---------------------------------------------------------------------------
(* Strength of propagation                                                 *)

SumUp(e, i, b) == e[i][1] * (IF e[i][1] > 0 THEN b[e[i][2]][2] ELSE b[e[i][2]][1])
SumDown(e, i, b) == e[i][1] * (IF e[i][1] > 0 THEN b[e[i][2]][1] ELSE b[e[i][2]][2])

\* Both bounds of each variable of a sum are part of a solution within the bounds.
SumConsistent(e, r, b) ==
    \A i \in 1..Len(e) : SumLow(e, 1, b) - SumDown(e, i, b) + SumUp(e, i, b) <= r

\* The smallest value of a product.
ProdLow(c, b) ==
    LET p == { c.a * x * y : x \in {b[c.x][1], b[c.x][2]}, y \in {b[c.y][1], b[c.y][2]} }
    IN  CHOOSE x \in p : \A y \in p : x <= y

TermLow(t, b) == t.f + SumLow(t.t, 1, b)
TermUp(t, b) == t.f - SumLow([ i \in 1..Len(t.t) |-> <<-t.t[i][1], t.t[i][2]>> ], 1, b)

\* What is guaranteed for constraint c whose literal is true (1) or open (2):
\* the literal is false if the bounds do not permit the constraint to hold, and
\* sums in force are consistent with the bounds.  Distinct constraints
\* in force exclude the values of assigned terms from the bounds of variables.
PropagatedWell(c, t, b, mb) ==
    CASE c.k = "sum" ->
            /\ t # 0 => SumLow(c.e, 1, b) <= c.r
            /\ t = 1 => SumConsistent(c.e, c.r, b)
      [] c.k = "min" -> mb # <<>> /\ t = 1 => SumConsistent(c.e, mb[1], b)
      [] c.k = "nl" ->
            LET z == << <<c.b, c.z>> >> IN
            /\ t # 0 => ProdLow(c, b) + SumDown(z, 1, b) <= c.r
            /\ t = 1 => ProdLow(c, b) + SumUp(z, 1, b) <= c.r
      [] c.k = "distinct" ->
            \A i, j \in 1..Len(c.e) :
                LET x == TermLow(c.e[i], b) IN
                i # j /\ x = TermUp(c.e[i], b) /\ t # 0 =>
                    /\ ~(TermLow(c.e[j], b) = x /\ TermUp(c.e[j], b) = x)
                    /\ t = 1 /\ Len(c.e[j].t) <= 1 => TermLow(c.e[j], b) # x /\ TermUp(c.e[j], b) # x
      [] OTHER -> TRUE

---------------------------------------------------------------------------
(* Transitions                                                             *)

EmptyMeaning == [ l \in {} |-> 0 ]

PropInit == store = <<>> /\ costs = {} /\ stack = <<>> /\ mean = <<>>

\* A step starts with constraints, the bounds of all threads, and the order
\* literals common to all threads.
StartStep(cons, bs, o) ==
    /\ MeaningKept(EmptyMeaning, o)
    /\ store' = cons /\ costs' = {}
    /\ stack' = [ th \in 1..Len(bs) |-> << [ dl |-> 0, b |-> bs[th] ] >> ]
    /\ mean' = [ th \in 1..Len(bs) |-> MeaningAdd(EmptyMeaning, o) ]

Top(th) == stack[th][Len(stack[th])]

Tighter(b, c) == \A v \in 1..Len(b) : c[v][1] <= b[v][1] /\ b[v][2] <= c[v][2]

RECURSIVE Below(_, _)
Below(s, dl) == IF s[Len(s)].dl < dl THEN s ELSE Below(SubSeq(s, 1, Len(s) - 1), dl)

\* The bounds reached after propagating on a decision level.  Levels on which
\* no bound has changed are taken back silently.
Propagated(th, dl, b) ==
    LET s == Below(stack[th], dl + 1)
        t == s[Len(s)] IN
    /\ t.b = Top(th).b
    /\ Tighter(b, t.b)
    /\ stack' = [ stack EXCEPT ![th] =
            IF t.dl = dl THEN [ s EXCEPT ![Len(s)].b = b ]
            ELSE Append(s, [ dl |-> dl, b |-> b ]) ]
    /\ UNCHANGED <<store, costs, mean>>

\* Decision level dl has been taken back.
Undone(th, dl, b) ==
    /\ dl > 0
    /\ LET s == Below(stack[th], dl) IN
        /\ b = s[Len(s)].b
        /\ stack' = [ stack EXCEPT ![th] = s ]
    /\ UNCHANGED <<store, costs, mean>>

AddClause(th, cl) ==
    /\ Justification(cl) # "none"
    /\ MeaningKept(mean[th], cl.o)
    /\ mean' = [ mean EXCEPT ![th] = MeaningAdd(@, cl.o) ]
    /\ UNCHANGED <<store, costs, stack>>

\* Propagation has finished without a conflict and a decision is made.
Fixpoint(th, dl, b, t, o, free) ==
    /\ b = Top(th).b
    /\ BoundsMatch(b, t, o)
    /\ MeaningKept(mean[th], o)
    /\ free
    /\ mean' = [ mean EXCEPT ![th] = MeaningAdd(@, o) ]
    /\ UNCHANGED <<store, costs, stack>>

\* At such a point, everything the constraints are meant to propagate has been
\* propagated; t are the truth values of their literals, mb is the bound of the
\* objective (<<>> if there is none).
Strong(th, b, t, mb) ==
    /\ b = Top(th).b
    /\ \A i \in 1..Len(store) : PropagatedWell(store[i], t[i], b, mb)
    /\ UNCHANGED pvars

\* A solution is reported, which requires that all variables have a value.
Reported(th, b, c) ==
    /\ b = Top(th).b
    /\ \A v \in 1..Len(b) : b[v][1] = b[v][2]
    /\ costs' = costs \cup Range(c)
    /\ UNCHANGED <<store, stack, mean>>

=============================================================================
