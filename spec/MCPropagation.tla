--------------------------- MODULE MCPropagation ---------------------------
(***************************************************************************)
(* A closed model of lazy clause generation by one thread over the actions *)
(* of Propagation.  It shows that the obligations Propagation puts on the  *)
(* propagator are sufficient: however a solver decides, learns justified   *)
(* clauses, propagates and backtracks, all solutions of the constraints    *)
(* are reported, each exactly once, and nothing else.                      *)
(*                                                                         *)
(* Two variables with values 0..M have all order literals; a third atom    *)
(* is the literal of a constraint.                                         *)
(***************************************************************************)
EXTENDS Propagation

CONSTANTS M, MaxClauses,
    Static  \* decide and propagate in a fixed order (reduces the states)

Lit(v, k) == 10 * v + k              \* variable v at most k, for k < M
OrderLits == { Lit(v, k) : v \in 1..2, k \in 0..M - 1 }
A == 2                               \* the literal of the constraint
Atoms == OrderLits \cup {A}
Lits == Atoms \cup { -x : x \in Atoms }

Stores == { << [ k |-> "sum", lit |-> A, e |-> <<<<1, 1>>, <<1, 2>>>>, r |-> 1 ],
               [ k |-> "distinct", lit |-> TrueLit,
                 e |-> << [ f |-> 0, t |-> <<<<1, 1>>>> ], [ f |-> 0, t |-> <<<<1, 2>>>> ] >> ] >>,
            << [ k |-> "sum", lit |-> TrueLit, e |-> <<<<2, 1>>, <<-1, 2>>>>, r |-> 1 ],
               [ k |-> "nl", lit |-> A, a |-> 1, x |-> 1, y |-> 2, b |-> 0, z |-> 1, r |-> 1 ] >>,
            << [ k |-> "disjoint", lit |-> A, e |-> <<<<2, 1>>, <<1, 2>>>> ] >> }

VARIABLES assign,   \* sequence of <<literal, is a decision>> in the order assigned
          learned,  \* clauses added, sets of literals
          blocked,  \* clauses excluding reported solutions
          found     \* the solutions reported
mvars == <<pvars, assign, learned, blocked, found>>

TrueLits == { assign[i][1] : i \in 1..Len(assign) }
Level == Cardinality({ i \in 1..Len(assign) : assign[i][2] })
Free(x) == x \notin TrueLits /\ -x \notin TrueLits

Values == [ v : [ 1..2 -> 0..M ], a : BOOLEAN ]
Solution(s) == \A c \in Range(store) : (c.lit = TrueLit \/ s.a) => Holds(c, s.v)

\* Truth of a literal for given values.
Value(x, s) ==
    LET y == Abs(x)
        t == IF y = A THEN s.a ELSE s.v[y \div 10] <= y % 10
    IN  IF x > 0 THEN t ELSE ~t

\* The bounds told by the true order literals.
Told ==
    [ v \in 1..2 |->
        LET hi == { k \in 0..M - 1 : Lit(v, k) \in TrueLits } \cup {M}
            lo == { k + 1 : k \in { k \in 0..M - 1 : -Lit(v, k) \in TrueLits } } \cup {0}
        IN  << CHOOSE x \in lo : \A y \in lo : y <= x, CHOOSE x \in hi : \A y \in hi : x <= y >> ]

Range0 == [ v \in 1..2 |-> <<0, M>> ]

ClauseOf(L) ==
    [ l |-> CHOOSE s \in [ 1..Cardinality(L) -> L ] : Range(s) = L,
      o |-> LET O == { x \in OrderLits : x \in L \/ -x \in L } IN
            IF O = {} THEN <<>>
            ELSE LET q == CHOOSE s \in [ 1..Cardinality(O) -> O ] : Range(s) = O IN
                 [ i \in 1..Len(q) |-> <<q[i], q[i] \div 10, q[i] % 10>> ],
      t |-> Range0, top |-> <<>>, mb |-> <<>>, type |-> 0 ]

\* The state of a clause under the assignment.
Conflicting(L) == \A x \in L : -x \in TrueLits
Unit(L, x) == x \in L /\ Free(x) /\ \A y \in L \ {x} : -y \in TrueLits

\* Clauses the solver has: those learned, those blocking reported solutions.
\* The relation between order literals is given by clauses of two literals.
Chain == { {-Lit(v, k), Lit(v, k + 1)} : v \in 1..2, k \in 0..M - 2 }
Clauses == learned \cup Chain \cup blocked

MCInit == PropInit /\ assign = <<>> /\ learned = {} /\ blocked = {} /\ found = {}

MCStart ==
    /\ store = <<>>
    /\ \E s \in Stores : StartStep(s, <<Range0>>, <<>>)
    /\ UNCHANGED <<assign, learned, blocked, found>>

Decide ==
    /\ store # <<>>
    /\ \A L \in Clauses : ~Conflicting(L) /\ \A x \in L : ~Unit(L, x)
    /\ Top(1).b = Told
    /\ \E a \in Atoms, x \in Lits :
        /\ Free(x) /\ Abs(x) = a
        /\ Static => \A y \in Atoms : Free(y) => a <= y
        /\ assign' = Append(assign, <<x, TRUE>>)
    /\ UNCHANGED <<pvars, learned, blocked, found>>

UnitPropagate ==
    /\ \A L \in Clauses : ~Conflicting(L)
    /\ \E L \in Clauses, x \in Lits :
        /\ Unit(L, x)
        /\ Static => \A K \in Clauses, y \in Lits : Unit(K, y) => x <= y
        /\ assign' = Append(assign, <<x, FALSE>>)
    /\ UNCHANGED <<pvars, learned, blocked, found>>

\* The propagator adopts the bounds told by the order literals.
Adopt ==
    /\ store # <<>>
    /\ Told # Top(1).b
    /\ ~EmptyBounds(Told)
    /\ Propagated(1, Level, Told)
    /\ UNCHANGED <<assign, learned, blocked, found>>

\* A justified clause that is a conflict or unit is added.
Add ==
    /\ store # <<>>
    /\ Cardinality(learned) < MaxClauses
    /\ \E L \in SUBSET Lits :
        /\ L \notin learned
        /\ \A x \in L : -x \notin L
        /\ Conflicting(L) \/ \E x \in L : Unit(L, x)
        /\ AddClause(1, ClauseOf(L))
        /\ learned' = learned \cup {L}
    /\ UNCHANGED <<assign, blocked, found>>

\* Clauses may be forgotten while they are not needed.
Forget ==
    /\ \E L \in learned : ~Conflicting(L) /\ learned' = learned \ {L}
    /\ UNCHANGED <<pvars, assign, blocked, found>>

\* Backtrack from a conflict: the last decision is taken back and flipped,
\* which is sound because everything below it has been explored.
LastDecision == CHOOSE i \in 1..Len(assign) : assign[i][2] /\ \A j \in i + 1..Len(assign) : ~assign[j][2]
Backtrack ==
    /\ Level > 0
    /\ \E L \in Clauses : Conflicting(L)
    /\ assign' = Append(SubSeq(assign, 1, LastDecision - 1), <<-assign[LastDecision][1], FALSE>>)
    /\ IF \E i \in 1..Len(stack[1]) : stack[1][i].dl >= Level
       THEN LET s == Below(stack[1], Level) IN Undone(1, Level, s[Len(s)].b)
       ELSE UNCHANGED pvars
    /\ UNCHANGED <<learned, blocked, found>>

Total == \A x \in Atoms : ~Free(x)

\* A total assignment without conflict that violates a constraint has to be
\* answered with a clause; otherwise it is reported and blocked.
Report ==
    /\ store # <<>> /\ Total
    /\ \A L \in Clauses : ~Conflicting(L)
    /\ Top(1).b = Told
    /\ LET s == [ v |-> [ v \in 1..2 |-> Told[v][1] ], a |-> A \in TrueLits ] IN
       /\ \A c \in Range(store) : InForce(c, [ l |-> IF s.a THEN <<-A>> ELSE <<>>, top |-> <<>> ]) => ~Infeasible(c, Told)
       /\ Reported(1, Told, <<>>)
       /\ found' = found \cup {s}
    /\ blocked' = blocked \cup { { -x : x \in TrueLits } }
    /\ UNCHANGED <<assign, learned>>

Done == Level = 0 /\ \E L \in Clauses : Conflicting(L)

Finished == Done /\ UNCHANGED mvars

MCNext == MCStart \/ Decide \/ UnitPropagate \/ Adopt \/ Add \/ Forget \/ Backtrack \/ Report \/ Finished
MCSpec == MCInit /\ [][MCNext]_mvars

\* Clauses never exclude a solution.
Sound == \A L \in learned, s \in Values : store # <<>> /\ Solution(s) => \E x \in L : Value(x, s)
OnlySolutions == \A s \in found : Solution(s)
\* The search ends (without a deadlock before) with all solutions found.
Complete == Done /\ store # <<>> => \A s \in Values : Solution(s) => s \in found
\* A reported solution is never a candidate again.
Once ==
    store # <<>> /\ Total /\ (\A L \in Clauses : ~Conflicting(L)) =>
        [ v |-> [ v \in 1..2 |-> Told[v][1] ], a |-> A \in TrueLits ] \notin found
\* Undo restores: bounds are never tighter than what the true literals tell.
BoundsTold == store # <<>> => Tighter(Told, Top(1).b) \/ EmptyBounds(Told)

=============================================================================
