-------------------------------- MODULE CASP --------------------------------
(***************************************************************************)
(* Declarative meaning of ground constraint answer set programs as they    *)
(* are accepted by clingcon.  A program is a record                        *)
(*                                                                         *)
(*   n, na      number of integer variables and of regular atoms           *)
(*   lo, hi     smallest and largest integer                               *)
(*   rules      sequence of rules [h, hs, b]                               *)
(*   cons       sequence of constraints                                    *)
(*   inst       sequence of instances of constraints with parameters,      *)
(*              which are referred to by negative indices                  *)
(*   obj        sequence of objective elements [s, el]                     *)
(*   ext        sequence of states of the external atoms                   *)
(*   facts      sequence of tables (sequences of integer tuples), which    *)
(*              conditions of constraint elements range over               *)
(*   hasobj     whether there is an objective                              *)
(*   sig        sequence of signatures of the variables (strings)          *)
(*   show       [on, vars, sigs]: whether there is a show statement, and   *)
(*              the variables and signatures selected by them              *)
(*                                                                         *)
(* Head kinds of rules: "a" (regular atom), "c" (choice over atoms), "n"   *)
(* (integrity constraint), "t" (constraint atom).  Body literals are       *)
(* [k, i, n] with k \in {"a","t"} and n the number of negations.           *)
(*                                                                         *)
(* Constraint atoms in heads are required to hold if they are derived;     *)
(* constraint atoms in bodies are true exactly if they hold.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

-----------------------------------------------------------------------------
(* Arithmetic.                                                             *)

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE 1
\* Division truncates towards zero and the remainder has the sign of the dividend.
TDiv(x, y) == Sgn(x) * Sgn(y) * (Abs(x) \div Abs(y))
TMod(x, y) == x - y * TDiv(x, y)
RECURSIVE IPow(_, _)
IPow(x, k) == IF k = 0 THEN 1 ELSE x * IPow(x, k - 1)
\* Powers with negative exponents are truncated, too.
TPow(x, k) == IF k >= 0 THEN IPow(x, k)
              ELSE IF x = 1 THEN 1 ELSE IF x = -1 THEN (IF (-k) % 2 = 0 THEN 1 ELSE -1) ELSE 0

\* The value of expression e under assignment a with element parameters p.
RECURSIVE Eval(_, _, _)
Eval(e, a, p) ==
    CASE e.o = "n" -> e.v
      [] e.o = "v" -> a[e.v]
      [] e.o = "p" -> p[e.v]
      [] e.o = "+" -> Eval(e.l, a, p) + Eval(e.r, a, p)
      [] e.o = "-" -> Eval(e.l, a, p) - Eval(e.r, a, p)
      [] e.o = "*" -> Eval(e.l, a, p) * Eval(e.r, a, p)
      [] e.o = "~" -> -Eval(e.l, a, p)
      [] e.o = "/" -> TDiv(Eval(e.l, a, p), Eval(e.r, a, p))
      [] e.o = "%" -> TMod(Eval(e.l, a, p), Eval(e.r, a, p))
      [] e.o = "^" -> TPow(Eval(e.l, a, p), Eval(e.r, a, p))
      [] e.o = "w" -> a[p[e.v]]   \* variable selected by a parameter

\* Conditions are sequences of literals:
\*   [k |-> "t", f, a]      table f has a row matching the arguments a
\*   [k |-> "n", f, a]      table f has no such row
\*   [k |-> "r", op, l, r]  the expressions l and r compare as stated
\* where arguments are [k |-> "p", v] (parameter v), [k |-> "n", v] (number v),
\* and [k |-> "_"] (any value).  An environment maps parameters to values.
Rel(op, x, y) ==
    CASE op = "<=" -> x <= y [] op = "<" -> x < y
      [] op = ">=" -> x >= y [] op = ">" -> x > y
      [] op = "="  -> x = y  [] op = "!=" -> x # y

Matches(args, row, env) ==
    \A i \in DOMAIN args :
        /\ args[i].k = "n" => row[i] = args[i].v
        /\ args[i].k = "p" =>
              /\ args[i].v \in DOMAIN env => env[args[i].v] = row[i]
              /\ \A j \in DOMAIN args : args[j].k = "p" /\ args[j].v = args[i].v => row[j] = row[i]

Bind(args, row, env) ==
    LET ps == { args[i].v : i \in { i \in DOMAIN args : args[i].k = "p" } }
    IN  [ v \in DOMAIN env \cup ps |->
            IF v \in DOMAIN env THEN env[v] ELSE row[CHOOSE i \in DOMAIN args : args[i].k = "p" /\ args[i].v = v] ]

RowsOf(facts, f) == { facts[f][k] : k \in DOMAIN facts[f] }

\* The environments extending one in E for which condition c is satisfied: one
\* for each distinct tuple of values of the parameters (multiset semantics).
RECURSIVE Join(_, _, _)
Join(c, facts, E) ==
    IF c = <<>> THEN E
    ELSE LET b == Head(c) IN
         Join(Tail(c), facts,
              UNION { { Bind(b.a, row, env) : row \in { row \in RowsOf(facts, b.f) : Matches(b.a, row, env) } } : env \in E })

Envs(c, facts, E) ==
    LET pos == SelectSeq(c, LAMBDA b : b.k = "t")
        neg == SelectSeq(c, LAMBDA b : b.k = "n")
        rel == SelectSeq(c, LAMBDA b : b.k = "r")
    IN  { env \in Join(pos, facts, E) :
            /\ \A i \in DOMAIN neg : \A row \in RowsOf(facts, neg[i].f) : ~Matches(neg[i].a, row, env)
            /\ \A i \in DOMAIN rel : Rel(rel[i].op, Eval(rel[i].l, <<>>, env), Eval(rel[i].r, <<>>, env)) }

\* The instances of an element given values g of the parameters shared by the rule.
Instances(el, facts, g) == Envs(el.c, facts, {g})

ElemSum(el, a, facts, g) ==
    IF el.c = <<>> THEN Eval(el.e, a, g)
    ELSE LET seq == SetToSeq(Instances(el, facts, g))
         IN  FoldLeft(+, 0, [ i \in 1..Len(seq) |-> Eval(el.e, a, seq[i]) ])

ElemsSum(els, a, facts, g) ==
    FoldLeft(+, 0, [ i \in 1..Len(els) |-> ElemSum(els[i], a, facts, g) ])

\* All instances of the elements (as a sequence of elements with environments).
RECURSIVE AllInstances(_, _, _)
AllInstances(els, facts, g) ==
    IF els = <<>> THEN <<>>
    ELSE LET seq == SetToSeq(Instances(Head(els), facts, g))
         IN  [ i \in 1..Len(seq) |-> <<Head(els), seq[i]>> ] \o AllInstances(Tail(els), facts, g)

-----------------------------------------------------------------------------
(* Constraints.                                                            *)

AllDistinct(vs) == \A i \in 1..Len(vs) : \A j \in 1..(i-1) : vs[i] # vs[j]

NoOverlap(s, l, t, m) == l <= 0 \/ m <= 0 \/ s + l <= t \/ t + m <= s

Holds(c, a, facts) ==
    CASE c.k = "sum" -> Rel(c.op, ElemsSum(c.el, a, facts, c.g), Eval(c.rhs, a, c.g))
      [] c.k = "distinct" ->
            LET ins == AllInstances(c.el, facts, c.g)
            IN  AllDistinct([ i \in 1..Len(ins) |-> Eval(ins[i][1].e, a, ins[i][2]) ])
      [] c.k = "disjoint" ->
            LET ins == AllInstances(c.el, facts, c.g)
                seq == [ i \in 1..Len(ins) |-> <<Eval(ins[i][1].e, a, ins[i][2]), Eval(ins[i][1].w, a, ins[i][2])>> ]
            IN  \A i \in 1..Len(seq) : \A j \in 1..(i-1) : NoOverlap(seq[i][1], seq[i][2], seq[j][1], seq[j][2])
      [] c.k = "dom" -> \E i \in 1..Len(c.iv) : c.iv[i][1] <= a[c.v] /\ a[c.v] <= c.iv[i][2]
      [] c.k = "ranges" ->
            LET x == Eval(c.x, a, c.g) IN
            \E i \in 1..Len(c.el) : \E env \in Instances(c.el[i], facts, c.g) :
                Eval(c.el[i].e, a, env) <= x /\ x <= Eval(c.el[i].u, a, env)

-----------------------------------------------------------------------------
(* Stable models for a fixed set T of constraints that hold.               *)

LitHolds(b, S, T) ==
    LET in == IF b.k = "a" THEN b.i \in S ELSE b.i \in T
    IN  IF b.n = 1 THEN ~in ELSE in
BodyHolds(r, S, T) == \A j \in 1..Len(r.b) : LitHolds(r.b[j], S, T)

IsPos(b) == b.k = "a" /\ b.n = 0

\* Atoms derived in one step from X w.r.t. the reduct for S.
Derive(P, X, S, T) ==
    { i \in 1..P.na : P.ext[i] = "true" \/ (P.ext[i] = "free" /\ i \in S) }
    \cup UNION { LET r == P.rules[k] IN
                 IF r.h \in {"a", "c"} /\ \A j \in 1..Len(r.b) :
                        IF IsPos(r.b[j]) THEN r.b[j].i \in X ELSE LitHolds(r.b[j], S, T)
                 THEN IF r.h = "a" THEN {r.hs[1]} ELSE { r.hs[j] : j \in 1..Len(r.hs) } \cap S
                 ELSE {} : k \in 1..Len(P.rules) }

RECURSIVE Closure(_, _, _, _)
Closure(P, X, S, T) ==
    LET Y == Derive(P, X, S, T) IN IF Y = X THEN X ELSE Closure(P, Y, S, T)

Stable(P, S, T) ==
    /\ \A k \in 1..Len(P.rules) : P.rules[k].h = "n" => ~BodyHolds(P.rules[k], S, T)
    /\ \A k \in 1..Len(P.rules) :
          (P.rules[k].h = "t" /\ BodyHolds(P.rules[k], S, T)) => P.rules[k].hs[1] \in T
    /\ \A k \in 1..Len(P.rules) :
          (P.rules[k].h = "a" /\ BodyHolds(P.rules[k], S, T)) => P.rules[k].hs[1] \in S
    /\ Closure(P, {}, S, T) = S

-----------------------------------------------------------------------------
(* Candidate assignments and solutions.                                    *)

\* Domain facts of variable i, which every solution has to satisfy.
DomFacts(P, i) == { P.rules[k].hs[1] : k \in { k \in 1..Len(P.rules) :
        /\ P.rules[k].h = "t" /\ P.rules[k].b = <<>>
        /\ P.rules[k].hs[1] > 0
        /\ P.cons[P.rules[k].hs[1]].k = "dom" /\ P.cons[P.rules[k].hs[1]].v = i } }

Values(P, i) ==
    LET D == DomFacts(P, i) IN
    IF D = {} THEN P.lo .. P.hi
    ELSE LET c == P.cons[CHOOSE d \in D : TRUE]
             u == UNION { c.iv[j][1] .. c.iv[j][2] : j \in 1..Len(c.iv) }
         IN  { x \in u : P.lo <= x /\ x <= P.hi /\
                 \A d \in D : \E j \in 1..Len(P.cons[d].iv) : P.cons[d].iv[j][1] <= x /\ x <= P.cons[d].iv[j][2] }

RECURSIVE Assignments(_, _)
Assignments(P, k) ==
    IF k = 0 THEN {<<>>}
    ELSE LET V == Values(P, k) A == Assignments(P, k - 1)
         IN  { Append(a, v) : a \in A, v \in V }

Truth(P, a) == { c \in 1..Len(P.cons) : ~P.cons[c].schema /\ Holds(P.cons[c], a, P.facts) }
               \cup { -c : c \in { c \in 1..Len(P.inst) : Holds(P.inst[c], a, P.facts) } }

RECURSIVE Mask(_, _)
Mask(S, k) == IF k = 0 THEN 0 ELSE 2 * Mask({ i - 1 : i \in S \ {1} }, k - 1) + (IF 1 \in S THEN 1 ELSE 0)

\* Solutions of the program that comply with the assumptions in As (a set of
\* <<atom, truth>> pairs).  A solution is a tuple whose first component encodes
\* the set of true atoms and whose remaining components are the values.
Solutions(P, As) ==
    LET cand == Assignments(P, P.n)
        sig  == [ a \in cand |-> Truth(P, a) ]
        sigs == { sig[a] : a \in cand }
        sets == { S \in SUBSET (1..P.na) : \A x \in As : (x[1] \in S) <=> x[2] }
        sm   == [ T \in sigs |-> { Mask(S, P.na) : S \in { S \in sets : Stable(P, S, T) } } ]
    IN  UNION { { <<m>> \o a : m \in sm[sig[a]] } : a \in cand }

\* The value of the objective (to be minimized).
Cost(P, m) ==
    LET a == Tail(m)
    IN  FoldLeft(+, 0, [ i \in 1..Len(P.obj) |-> P.obj[i].s * ElemSum(P.obj[i].el, a, P.facts, <<>>) ])

\* The variables selected by show statements (all if there is none).
Shown(P) ==
    IF ~P.show.on THEN 1..P.n
    ELSE { i \in 1..P.n : i \in P.show.vars \/ P.sig[i] \in P.show.sigs }

=============================================================================
