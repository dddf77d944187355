----------------------------- MODULE BigIntTest -----------------------------
(* The big integers agree with TLC's integers and satisfy the division laws. *)
EXTENDS BigInt, TLC, FiniteSets
S == (-30..30) \cup { -123456, 123456, 9999, 10000, 10001, -9999, -10000, -20000, 99999, 46340, -46340 }
B == { BOf(s) : s \in S } \cup { Pow2(30), Pow2(31), BNeg(Pow2(31)), BMul(Pow2(60), BOf(3)), BNeg(Pow2(90)), BMul(BOf(9999), BMul(Pow2(40), BOf(-7))) }
Small == { s \in S : s \in -200..200 }
ASSUME \A a, b \in S : BAdd(BOf(a), BOf(b)) = BOf(a + b) /\ BSub(BOf(a), BOf(b)) = BOf(a - b)
ASSUME \A a \in S, b \in Small : BMul(BOf(a), BOf(b)) = BOf(a * b)
ASSUME \A a, b \in S : (BCmp(BOf(a), BOf(b)) < 0) = (a < b) /\ (BOf(a) = BOf(b)) = (a = b)
ASSUME \A a, b \in S : b > 0 => BFloorDiv(BOf(a), BOf(b)) = BOf(a \div b)
ASSUME \A a, b \in B : b # BZero =>
         /\ BAdd(BMul(BQuot(a, b), b), BRem(a, b)) = a
         /\ BLt(BAbs(BRem(a, b)), BAbs(b))
         /\ Sgn(BRem(a, b)) \in {0, Sgn(a)}
         /\ LET f == BFloorDiv(a, b)
                c == BCeilDiv(a, b)
            IN /\ IF Sgn(b) > 0 THEN BLeq(BMul(f, b), a) /\ BLt(a, BMul(BAdd(f, BOne), b))
                  ELSE BLeq(a, BMul(f, b)) /\ BLt(BMul(BAdd(f, BOne), b), a)
               /\ c = BNeg(BFloorDiv(BNeg(a), b))
ASSUME \A a, b, c \in { BOf(3), Pow2(40), BNeg(Pow2(55)), BOf(-99990001) } :
         BMul(a, BAdd(b, c)) = BAdd(BMul(a, b), BMul(a, c)) /\ BMul(BMul(a, b), c) = BMul(a, BMul(b, c))
VARIABLE x
Spec == x = 0 /\ [][UNCHANGED x]_x
=============================================================================
