------------------------------- MODULE BigInt -------------------------------
(***************************************************************************)
(* Exact integers of arbitrary size for TLC, whose own integers have 32    *)
(* bits.  An integer is a sequence <<sign, l1, l2, ...>> of its sign (-1,  *)
(* 0, 1) and its limbs in base 10000, least significant first, without     *)
(* superfluous limbs; zero is <<0>>.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

Base == 10000

BZero == <<0>>
Mag(a) == Tail(a)                       \* limbs
Sgn(a) == a[1]

RECURSIVE Trim(_)
Trim(m) == IF m # <<>> /\ m[Len(m)] = 0 THEN Trim(SubSeq(m, 1, Len(m) - 1)) ELSE m

Mk(s, m) == LET t == Trim(m) IN IF t = <<>> THEN BZero ELSE <<s>> \o t

Limb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
BMax2(a, b) == IF a > b THEN a ELSE b

\* magnitudes
RECURSIVE MagCmpAt(_, _, _)
MagCmpAt(a, b, i) ==
    IF i = 0 THEN 0
    ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1)
    ELSE MagCmpAt(a, b, i - 1)
MagCmp(a, b) ==
    IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE MagCmpAt(a, b, Len(a))

RECURSIVE MagAddAt(_, _, _, _, _)
MagAddAt(a, b, i, c, r) ==
    IF i > BMax2(Len(a), Len(b)) THEN (IF c = 0 THEN r ELSE Append(r, c))
    ELSE LET s == Limb(a, i) + Limb(b, i) + c
         IN MagAddAt(a, b, i + 1, s \div Base, Append(r, s % Base))
MagAdd(a, b) == MagAddAt(a, b, 1, 0, <<>>)

\* a >= b
RECURSIVE MagSubAt(_, _, _, _, _)
MagSubAt(a, b, i, c, r) ==
    IF i > Len(a) THEN r
    ELSE LET s == Limb(a, i) - Limb(b, i) - c
         IN IF s < 0 THEN MagSubAt(a, b, i + 1, 1, Append(r, s + Base))
            ELSE MagSubAt(a, b, i + 1, 0, Append(r, s))
MagSub(a, b) == Trim(MagSubAt(a, b, 1, 0, <<>>))

RECURSIVE MagMul1(_, _, _, _, _)
MagMul1(a, d, i, c, r) ==
    IF i > Len(a) THEN (IF c = 0 THEN r ELSE Append(r, c))
    ELSE LET s == a[i] * d + c
         IN MagMul1(a, d, i + 1, s \div Base, Append(r, s % Base))

RECURSIVE MagMulAt(_, _, _)
MagMulAt(a, b, j) ==
    IF j > Len(b) THEN <<>>
    ELSE LET rest == MagMulAt(a, b, j + 1)
         IN MagAdd(Trim(MagMul1(a, b[j], 1, 0, <<>>)), IF rest = <<>> THEN <<>> ELSE <<0>> \o rest)
MagMul(a, b) == Trim(MagMulAt(a, b, 1))

\* the largest digit q with d*q <= r
RECURSIVE Digit(_, _, _, _)
Digit(r, d, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2
         IN IF MagCmp(Trim(MagMul1(d, mid, 1, 0, <<>>)), r) <= 0 THEN Digit(r, d, mid, hi) ELSE Digit(r, d, lo, mid - 1)

\* quotient of magnitudes, most significant limb first; r is the remainder so far
RECURSIVE MagDivAt(_, _, _, _, _)
MagDivAt(a, d, i, q, r) ==
    IF i = 0 THEN <<Trim(q), r>>
    ELSE LET rr == Trim(<<a[i]>> \o r)
             k == Digit(rr, d, 0, Base - 1)
         IN MagDivAt(a, d, i - 1, <<k>> \o q, MagSub(rr, Trim(MagMul1(d, k, 1, 0, <<>>))))
MagDivMod(a, d) == MagDivAt(a, d, Len(a), <<>>, <<>>)

\* integers
BNeg(a) == IF a = BZero THEN a ELSE [ a EXCEPT ![1] = -a[1] ]
BAbs(a) == IF Sgn(a) < 0 THEN BNeg(a) ELSE a
BAdd(a, b) ==
    IF Sgn(a) = 0 THEN b ELSE IF Sgn(b) = 0 THEN a
    ELSE IF Sgn(a) = Sgn(b) THEN Mk(Sgn(a), MagAdd(Mag(a), Mag(b)))
    ELSE LET c == MagCmp(Mag(a), Mag(b))
         IN IF c = 0 THEN BZero
            ELSE IF c > 0 THEN Mk(Sgn(a), MagSub(Mag(a), Mag(b)))
            ELSE Mk(Sgn(b), MagSub(Mag(b), Mag(a)))
BSub(a, b) == BAdd(a, BNeg(b))
BMul(a, b) == IF Sgn(a) = 0 \/ Sgn(b) = 0 THEN BZero ELSE Mk(Sgn(a) * Sgn(b), MagMul(Mag(a), Mag(b)))
BCmp(a, b) ==
    IF Sgn(a) # Sgn(b) THEN (IF Sgn(a) < Sgn(b) THEN -1 ELSE 1)
    ELSE Sgn(a) * MagCmp(Mag(a), Mag(b))
BLeq(a, b) == BCmp(a, b) <= 0
BLt(a, b) == BCmp(a, b) < 0

\* truncating division; b # 0
BQuot(a, b) == IF Sgn(a) = 0 THEN BZero ELSE Mk(Sgn(a) * Sgn(b), MagDivMod(Mag(a), Mag(b))[1])
BRem(a, b) == IF Sgn(a) = 0 THEN BZero ELSE Mk(Sgn(a), MagDivMod(Mag(a), Mag(b))[2])

BOne == <<1, 1>>
BFloorDiv(a, b) == LET q == BQuot(a, b) IN IF BRem(a, b) # BZero /\ Sgn(a) # Sgn(b) THEN BSub(q, BOne) ELSE q
BCeilDiv(a, b) == LET q == BQuot(a, b) IN IF BRem(a, b) # BZero /\ Sgn(a) = Sgn(b) THEN BAdd(q, BOne) ELSE q

IsOdd(a) == Sgn(a) # 0 /\ a[2] % 2 = 1

\* b small enough to be a TLC integer
RECURSIVE ToInt(_, _)
ToInt(m, i) == IF i > Len(m) THEN 0 ELSE m[i] + Base * ToInt(m, i + 1)

RECURSIVE BPowN(_, _)
BPowN(a, n) == IF n = 0 THEN BOne ELSE BMul(a, BPowN(a, n - 1))

BOf(n) == \* of a small TLC integer
    LET RECURSIVE D(_)
        D(k) == IF k = 0 THEN <<>> ELSE <<k % Base>> \o D(k \div Base)
    IN IF n = 0 THEN BZero ELSE IF n < 0 THEN <<-1>> \o D(-n) ELSE <<1>> \o D(n)

BMaxVal == BSub(BPowN(BOf(2), 30), BOne)     \* the largest supported value
BMinVal == BNeg(BMaxVal)
Pow2(n) == BPowN(BOf(2), n)
Within(a, lo, hi) == BLeq(lo, a) /\ BLeq(a, hi)
InRange(a) == BLeq(BAbs(a), BMaxVal)
=============================================================================
