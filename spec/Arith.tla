-------------------------------- MODULE Arith -------------------------------
(***************************************************************************)
(* What a program over expressions with large integers means, and when it  *)
(* has to be rejected.                                                      *)
(*                                                                         *)
(* Expressions are trees: [k |-> "num", v |-> big], [k |-> "var", i |-> n],*)
(* [k |-> "neg", a |-> e], and the binary add, sub, mul, div, mod, pow.    *)
(*                                                                         *)
(* A constraint has a kind (sum, nsum, diff, dom, distinct, disjoint, min, *)
(* max, show), an occurrence (fact; if: head under a free choice of its    *)
(* atom; body: its atom is defined by it) and elements.                    *)
(***************************************************************************)
EXTENDS BigInt, FiniteSets, SequencesExt, TLC

Binary == { "add", "sub", "mul", "div", "mod", "pow" }

RECURSIVE Nodes(_)
Nodes(e) ==
    {e} \cup (IF e.k = "neg" THEN Nodes(e.a)
              ELSE IF e.k \in Binary THEN Nodes(e.a) \cup Nodes(e.b) ELSE {})
Ground(e) == \A n \in Nodes(e) : n.k # "var"

\* ---- exact evaluation ---------------------------------------------------
RECURSIVE Value(_, _)
Value(e, as) ==
    CASE e.k = "num" -> e.v
      [] e.k = "var" -> as[e.i]
      [] e.k = "neg" -> BNeg(Value(e.a, as))
      [] e.k = "add" -> BAdd(Value(e.a, as), Value(e.b, as))
      [] e.k = "sub" -> BSub(Value(e.a, as), Value(e.b, as))
      [] e.k = "mul" -> BMul(Value(e.a, as), Value(e.b, as))
      [] e.k = "div" -> BQuot(Value(e.a, as), Value(e.b, as))
      [] e.k = "mod" -> BRem(Value(e.a, as), Value(e.b, as))
      [] e.k = "pow" ->
           LET a == Value(e.a, as)
               b == Value(e.b, as)
           IN IF Sgn(b) >= 0 THEN (IF Sgn(b) # 0 /\ Sgn(a) = 0 THEN BZero
                                   ELSE IF BAbs(a) = BOne THEN (IF Sgn(a) > 0 \/ ~IsOdd(b) THEN BOne ELSE BNeg(BOne))
                                   ELSE BPowN(a, ToInt(Mag(b), 1)))
              \* truncated towards zero
              ELSE IF BAbs(a) = BOne THEN (IF Sgn(a) > 0 \/ ~IsOdd(b) THEN BOne ELSE BNeg(BOne))
              ELSE BZero

\* Division by zero and negative powers of zero have no value; / \ and ** are
\* only defined between constants.
RECURSIVE Defined(_)
Defined(e) ==
    CASE e.k \in { "num", "var" } -> TRUE
      [] e.k = "neg" -> Defined(e.a)
      [] e.k \in { "add", "sub", "mul" } -> Defined(e.a) /\ Defined(e.b)
      [] e.k \in { "div", "mod" } ->
           Ground(e) /\ Defined(e.a) /\ Defined(e.b) /\ Value(e.b, <<>>) # BZero
      [] e.k = "pow" ->
           /\ Ground(e) /\ Defined(e.a) /\ Defined(e.b)
           /\ ~(Sgn(Value(e.b, <<>>)) < 0 /\ Value(e.a, <<>>) = BZero)

\* ---- polynomials --------------------------------------------------------
SortVars(s) == SortSeq(s, <)

RECURSIVE Poly(_)
Poly(e) == \* of a defined expression: a sequence of <<variables, coefficient>>
    CASE e.k = "num" -> << <<<<>>, e.v>> >>
      [] e.k = "var" -> << <<<<e.i>>, BOne>> >>
      [] e.k = "neg" -> LET p == Poly(e.a) IN [ j \in 1..Len(p) |-> <<p[j][1], BNeg(p[j][2])>> ]
      [] e.k = "add" -> Poly(e.a) \o Poly(e.b)
      [] e.k = "sub" -> LET p == Poly(e.b) IN Poly(e.a) \o [ j \in 1..Len(p) |-> <<p[j][1], BNeg(p[j][2])>> ]
      [] e.k = "mul" ->
           LET p == Poly(e.a)
               q == Poly(e.b)
               n == Len(q)
           IN [ j \in 1..(Len(p) * n) |->
                LET x == p[((j - 1) \div n) + 1]
                    y == q[((j - 1) % n) + 1]
                IN <<SortVars(x[1] \o y[1]), BMul(x[2], y[2])>> ]
      [] OTHER -> << <<<<>>, Value(e, <<>>)>> >>

RECURSIVE SumOf(_, _, _)
SumOf(p, v, i) == IF i = 0 THEN BZero ELSE IF p[i][1] = v THEN BAdd(SumOf(p, v, i - 1), p[i][2]) ELSE SumOf(p, v, i - 1)
RECURSIVE AbsOf(_, _, _)
AbsOf(p, v, i) == IF i = 0 THEN BZero ELSE IF p[i][1] = v THEN BAdd(AbsOf(p, v, i - 1), BAbs(p[i][2])) ELSE AbsOf(p, v, i - 1)

Vs(p) == { p[i][1] : i \in 1..Len(p) }
\* Combined coefficients: a set of pairs without zero coefficients (constants are kept).
Merge(p) == { x \in { <<v, SumOf(p, v, Len(p))>> : v \in Vs(p) \cup {<<>>} } : x[1] = <<>> \/ x[2] # BZero }

RECURSIVE Concat(_, _)
Concat(ps, i) == IF i > Len(ps) THEN <<>> ELSE ps[i] \o Concat(ps, i + 1)

\* ---- constraints --------------------------------------------------------
HasRhs(c) == c.kind \in { "sum", "nsum", "diff" }
IsObj(c) == c.kind \in { "min", "max" }
Exprs(c) ==
    CASE c.kind = "dom" -> { c.els[i].l : i \in 1..Len(c.els) } \cup { c.els[i].r : i \in 1..Len(c.els) }
      [] c.kind = "disjoint" -> { c.els[i].x : i \in 1..Len(c.els) } \cup { c.els[i].l : i \in 1..Len(c.els) }
      [] OTHER -> { c.els[i] : i \in 1..Len(c.els) } \cup (IF HasRhs(c) THEN {c.rhs} ELSE {})

Whole(c) == \* polynomial "elements - right hand side"
    Concat([ i \in 1..Len(c.els) |-> Poly(c.els[i]) ], 1)
    \o (IF HasRhs(c) THEN Poly([ k |-> "neg", a |-> c.rhs ]) ELSE <<>>)

Fits(p) == \A x \in Merge(p) : InRange(x[2])
Deg(p) == { Len(x[1]) : x \in Merge(p) }
OfDeg(p, n) == Cardinality({ x \in Merge(p) : Len(x[1]) = n })

\* The constraint does not have the supported form.
BadForm(c) ==
    CASE c.kind = "sum" -> c.rel = "none" \/ OfDeg(Whole(c), 2) > 0 \/ \E d \in Deg(Whole(c)) : d > 2
      [] c.kind = "nsum" ->
           c.rel = "none" \/ OfDeg(Whole(c), 2) > 1 \/ OfDeg(Whole(c), 1) > 1 \/ \E d \in Deg(Whole(c)) : d > 2
      [] c.kind = "diff" ->
           \/ c.rel # "<=" \/ Len(c.els) # 1 \/ ~Ground(c.rhs)
           \/ c.els[1].k # "sub"
           \/ ~(c.els[1].a.k = "var" \/ Ground(c.els[1].a))
           \/ ~(c.els[1].b.k = "var" \/ Ground(c.els[1].b))
      [] IsObj(c) -> \E d \in Deg(Whole(c)) : d > 1
      [] c.kind = "dom" ->
           c.rel # "=" \/ c.x.k # "var" \/ \E i \in 1..Len(c.els) : ~Ground(c.els[i].l) \/ ~Ground(c.els[i].r)
      [] c.kind = "distinct" -> \E i \in 1..Len(c.els) : \E d \in Deg(Poly(c.els[i])) : d > 1
      [] c.kind = "disjoint" -> \E i \in 1..Len(c.els) : c.els[i].x.k # "var" \/ ~Ground(c.els[i].l)
      [] c.kind = "show" -> \E i \in 1..Len(c.els) : c.els[i].k # "var"

\* A constant, coefficient or bound has no representation.
BadRange(c) ==
    CASE c.kind \in { "sum", "nsum", "diff" } -> ~Fits(Whole(c))
      [] c.kind = "dom" -> \E i \in 1..Len(c.els) :
           LET l == Value(c.els[i].l, <<>>)
               r == Value(c.els[i].r, <<>>)
           IN BLeq(l, r) /\ (~InRange(l) \/ ~InRange(r))
      [] c.kind = "distinct" -> \E i \in 1..Len(c.els) : ~Fits(Poly(c.els[i]))
      [] c.kind = "disjoint" -> \E i \in 1..Len(c.els) : BLt(BMaxVal, Value(c.els[i].l, <<>>))
      [] OTHER -> FALSE

Rejected(c) == (\E e \in Exprs(c) : ~Defined(e)) \/ BadForm(c) \/ BadRange(c)

\* Every intermediate result fits, whatever the order in which it is computed.
SmallNode(n) == ~Defined(n) \/ \A j \in 1..Len(Poly(n)) : InRange(Poly(n)[j][2]) /\ Len(Poly(n)[j][1]) <= 2
RECURSIVE LinAbs(_, _)
LinAbs(p, i) == IF i = 0 THEN BZero ELSE IF Len(p[i][1]) = 1 THEN BAdd(LinAbs(p, i - 1), BAbs(p[i][2])) ELSE LinAbs(p, i - 1)
Easy(p) ==
    /\ \A v \in Vs(p) : BLeq(AbsOf(p, v, Len(p)), BMaxVal)
    /\ BLeq(LinAbs(p, Len(p)), BMul(BOf(4), BMaxVal))
Safe(c) ==
    /\ ~Rejected(c)
    /\ \A e \in Exprs(c) : \A n \in Nodes(e) : SmallNode(n)
    /\ CASE c.kind \in { "sum", "diff", "min", "max" } -> Easy(Whole(c)) /\ \A v \in Vs(Whole(c)) : Len(v) <= 1
         [] c.kind = "nsum" -> Easy(Whole(c))
         [] c.kind = "distinct" -> \* differences of terms are coefficients, too, and so are
                                \* the values next to differences of constants
               Easy(Whole(c)) /\ BLeq(BAdd(AbsOf(Whole(c), <<>>, Len(Whole(c))), BOf(1)), BMaxVal) /\ \A v \in Vs(Whole(c)) : Len(v) <= 1
         [] OTHER -> TRUE

\* ---- solutions ----------------------------------------------------------
RECURSIVE Between(_, _)
Between(l, r) == IF BLt(r, l) THEN {} ELSE {l} \cup Between(BAdd(l, BOne), r)
DomOf(c) == UNION { Between(Value(c.els[i].l, <<>>), Value(c.els[i].r, <<>>)) : i \in 1..Len(c.els) }

RECURSIVE SumVals(_, _, _)
SumVals(els, as, i) == IF i = 0 THEN BZero ELSE BAdd(SumVals(els, as, i - 1), Value(els[i], as))

Compare(rel, d) ==
    CASE rel = "<=" -> d <= 0 [] rel = "<" -> d < 0 [] rel = ">=" -> d >= 0
      [] rel = ">" -> d > 0 [] rel = "=" -> d = 0 [] rel = "!=" -> d # 0

Holds(c, as) ==
    CASE HasRhs(c) -> Compare(c.rel, BCmp(SumVals(c.els, as, Len(c.els)), Value(c.rhs, as)))
      [] c.kind = "dom" -> as[c.x.i] \in DomOf(c)
      [] c.kind = "distinct" -> \A i, j \in 1..Len(c.els) : i < j => Value(c.els[i], as) # Value(c.els[j], as)
      [] c.kind = "disjoint" -> \A i, j \in 1..Len(c.els) :
           i < j => LET a == Value(c.els[i].x, as)
                        b == Value(c.els[j].x, as)
                        s == Value(c.els[i].l, as)
                        t == Value(c.els[j].l, as)
                    IN \/ Sgn(s) <= 0 \/ Sgn(t) <= 0
                       \/ BLeq(BAdd(a, s), b) \/ BLeq(BAdd(b, t), a)
      [] OTHER -> TRUE

\* The candidates of a variable are the values of its unconditional domain.
Candidates(cs, i) ==
    LET d == { j \in 1..Len(cs) : cs[j].kind = "dom" /\ cs[j].occ = "fact" /\ ~Rejected(cs[j]) /\ cs[j].x.i = i }
    IN IF d = {} THEN {} ELSE DomOf(cs[CHOOSE j \in d : \A k \in d : j <= k])

RECURSIVE Product(_, _, _)
Product(cs, n, i) ==
    IF i > n THEN {<<>>} ELSE { <<x>> \o t : x \in Candidates(cs, i), t \in Product(cs, n, i + 1) }

RECURSIVE Mask(_)
Mask(s) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN 2^(x - 1) + Mask(s \ {x})

\* Solutions of the constraints in J (indices into cs).
Solutions(cs, J, n) ==
    LET choice == { cs[j].at : j \in { j \in J : cs[j].occ = "if" } }
        defd == { j \in J : cs[j].occ = "body" }
        facts == { j \in J : cs[j].occ = "fact" /\ ~IsObj(cs[j]) }
        ifs == { j \in J : cs[j].occ = "if" }
        good == { as \in Product(cs, n, 1) : \A j \in facts : Holds(cs[j], as) }
    IN UNION { LET body == { cs[j].at : j \in { j \in defd : Holds(cs[j], as) } }
                   ok == { j \in ifs : Holds(cs[j], as) }
               IN { [ m |-> Mask(ch \cup body), v |-> as ] :
                    ch \in { s \in SUBSET choice : \A j \in ifs : cs[j].at \in s => j \in ok } }
             : as \in good }

RECURSIVE CostOf(_, _, _)
CostOf(cs, as, j) ==
    IF j = 0 THEN BZero
    ELSE LET r == CostOf(cs, as, j - 1)
         IN IF cs[j].kind = "min" THEN BAdd(r, SumVals(cs[j].els, as, Len(cs[j].els)))
            ELSE IF cs[j].kind = "max" THEN BSub(r, SumVals(cs[j].els, as, Len(cs[j].els)))
            ELSE r

\* The polynomial of the whole objective.
ObjPoly(cs) ==
    Concat([ j \in 1..Len(cs) |->
             IF cs[j].kind = "min" THEN Whole(cs[j])
             ELSE IF cs[j].kind = "max" THEN [ i \in 1..Len(Whole(cs[j])) |-> <<Whole(cs[j])[i][1], BNeg(Whole(cs[j])[i][2])>> ]
             ELSE <<>> ], 1)
HasObj(cs) == \E j \in 1..Len(cs) : IsObj(cs[j])

BadCons(cs) == { j \in 1..Len(cs) : Rejected(cs[j]) }
BadObj(cs) == HasObj(cs) /\ (\A j \in 1..Len(cs) : IsObj(cs[j]) => ~Rejected(cs[j])) /\ ~Fits(ObjPoly(cs))
MustReject(cs) == BadCons(cs) # {} \/ BadObj(cs)

ObjSafe(cs, n) ==
    HasObj(cs) =>
        /\ Easy(ObjPoly(cs))
        /\ \A as \in Product(cs, n, 1) : BLeq(BMul(BOf(2), BAbs(CostOf(cs, as, Len(cs)))), BMaxVal)
        /\ BLeq(LinAbs(ObjPoly(cs), Len(ObjPoly(cs))), BOf(2000000))
MustAccept(cs, n) == (\A j \in 1..Len(cs) : Safe(cs[j])) /\ ObjSafe(cs, n)
=============================================================================
