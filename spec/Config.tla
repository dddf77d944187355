------------------------------- MODULE Config -------------------------------
(* Options and the configuration of clingcon: what a setting means, which    *)
(* settings are valid, and which part of the configuration they change.      *)
(* Values are sequences of characters, as given by the user.                 *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANT MaxThread   \* threads are numbered 0..MaxThread (63 in clingcon)
Threads == 0..MaxThread

Flags == {"shift-constraints", "sort-constraints", "literals-only", "add-order-clauses", "check-solution", "check-state"}
ThrFlags == {"refine-reasons", "refine-introduce", "propagate-chain", "split-all"}
ThrKeys == ThrFlags \cup {"sign-value", "order-heuristic"}
GlobKeys == Flags \cup {"translate-clauses", "total", "translate-distinct", "translate-opt", "translate-pb", "min-int", "max-int"}

-----------------------------------------------------------------------------
(* Numbers *)

Digit == [ c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
    CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
      [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9 ]
IsDigits(v) == v # <<>> /\ \A i \in 1..Len(v) : v[i] \in DOMAIN Digit
IsSigned(v) == v # <<>> /\ (IsDigits(v) \/ (v[1] = "-" /\ IsDigits(Tail(v))))
Range(s) == { s[i] : i \in 1..Len(s) }
\* Without leading zeros.
RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ d[1] = 0 THEN Strip(Tail(d)) ELSE d
Digits(v) == Strip([ i \in 1..Len(v) |-> Digit[v[i]] ])
Number(neg, d) == [ neg |-> neg /\ d # <<0>>, d |-> d ]
Num(v) == IF v[1] = "-" THEN Number(TRUE, Digits(Tail(v))) ELSE Number(FALSE, Digits(v))
DLess(a, b) ==
    \/ Len(a) < Len(b)
    \/ /\ Len(a) = Len(b)
       /\ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Less(a, b) ==
    IF a.neg # b.neg THEN a.neg
    ELSE IF a.neg THEN DLess(b.d, a.d) ELSE DLess(a.d, b.d)
Leq(a, b) == ~Less(b, a)

Pos(d) == [ neg |-> FALSE, d |-> d ]
Neg(d) == [ neg |-> TRUE, d |-> d ]
D30 == <<1, 0, 7, 3, 7, 4, 1, 8, 2, 3>>   \* 2^30-1
D31 == <<2, 1, 4, 7, 4, 8, 3, 6, 4, 7>>   \* 2^31-1
N31 == <<2, 1, 4, 7, 4, 8, 3, 6, 4, 8>>   \* 2^31
D32 == <<4, 2, 9, 4, 9, 6, 7, 2, 9, 5>>   \* 2^32-1
D64 == <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 5>>
Value == [ lo |-> Neg(D30), hi |-> Pos(D30) ]      \* integers of the theory
Int32 == [ lo |-> Neg(N31), hi |-> Pos(D31) ]
UInt32 == [ lo |-> Pos(<<0>>), hi |-> Pos(D32) ]
UInt64 == [ lo |-> Pos(<<0>>), hi |-> Pos(D64) ]

Bad == [ ok |-> FALSE ]
Good(x) == [ ok |-> TRUE, v |-> x ]
MIN == <<"m", "i", "n">>
MAX == <<"m", "a", "x">>
InRange(v, r) ==
    IF v = MIN THEN Good(r.lo) ELSE IF v = MAX THEN Good(r.hi)
    ELSE IF IsSigned(v) /\ Leq(r.lo, Num(v)) /\ Leq(Num(v), r.hi) THEN Good(Num(v)) ELSE Bad

\* Decimals with at most six digits after the point.
Six(d) == [ i \in 1..6 |-> IF i <= Len(d) THEN d[i] ELSE 0 ]
Point(v) == IF \E i \in 1..Len(v) : v[i] = "." THEN CHOOSE i \in 1..Len(v) : v[i] = "." /\ \A j \in 1..(i - 1) : v[j] # "."
            ELSE Len(v) + 1
Decimal(v) ==
    LET neg == v # <<>> /\ v[1] = "-"
        w == IF neg THEN Tail(v) ELSE v
        p == Point(w)
        ip == SubSeq(w, 1, p - 1)
        fp == SubSeq(w, p + 1, Len(w))
        raw == [ i \in 1..Len(fp) |-> Digit[fp[i]] ]
    IN IF IsDigits(ip) /\ (p > Len(w) \/ (IsDigits(fp) /\ Len(fp) <= 6))
       THEN LET d == Digits(ip) IN Good([ neg |-> neg /\ (d # <<0>> \/ \E i \in 1..Len(raw) : raw[i] # 0), d |-> d, f |-> Six(raw) ])
       ELSE Bad

Bool(v) ==
    IF v \in {<<"y", "e", "s">>, <<"t", "r", "u", "e">>, <<"1">>} THEN Good(TRUE)
    ELSE IF v \in {<<"n", "o">>, <<"f", "a", "l", "s", "e">>, <<"0">>} THEN Good(FALSE) ELSE Bad
Heu(v) ==
    IF v = <<"n", "o", "n", "e">> THEN Good(FALSE)
    ELSE IF v = <<"m", "a", "x", "-", "c", "h", "a", "i", "n">> THEN Good(TRUE) ELSE Bad
Sign(v) ==
    IF v = <<"+">> THEN Good(Int32.hi) ELSE IF v = <<"-">> THEN Good(Int32.lo) ELSE InRange(v, Int32)

\* Value up to the first comma, and what follows (if there is a comma).
Comma(v) == IF \E i \in 1..Len(v) : v[i] = "," THEN CHOOSE i \in 1..Len(v) : v[i] = "," /\ \A j \in 1..(i - 1) : v[j] # ","
            ELSE Len(v) + 1
Head1(v) == SubSeq(v, 1, Comma(v) - 1)
HasRest(v) == Comma(v) <= Len(v)
Rest(v) == SubSeq(v, Comma(v) + 1, Len(v))
ThreadOk(v) == IsDigits(v) /\ Len(Digits(v)) <= 2 /\
    (LET d == Digits(v) IN (IF Len(d) = 1 THEN d[1] ELSE 10 * d[1] + d[2]) \in Threads)
Thread(v) == LET d == Digits(v) IN IF Len(d) = 1 THEN d[1] ELSE 10 * d[1] + d[2]

-----------------------------------------------------------------------------
(* Settings.  The meaning of a valid setting is a sequence of updates:       *)
(* [key, val] of a global setting, or [key, val, t] with the set t of        *)
(* threads of a thread-specific one.                                         *)

Simple(key, r) == IF r.ok THEN Good(<<[ key |-> key, val |-> r.v, t |-> {} ]>>) ELSE Bad
Threaded(key, r, v) ==
    IF ~r.ok \/ (HasRest(v) /\ ~ThreadOk(Rest(v))) THEN Bad
    ELSE Good(<<[ key |-> key, val |-> r.v, t |-> IF HasRest(v) THEN {Thread(Rest(v))} ELSE Threads ]>>)

Meaning(key, v) ==
    CASE key \in Flags -> Simple(key, Bool(v))
      [] key \in {"translate-distinct", "translate-opt"} -> Simple(key, InRange(v, UInt32))
      [] key \in {"min-int", "max-int"} -> Simple(key, InRange(v, Value))
      [] key = "translate-pb" -> Simple(key, Decimal(v))
      [] key = "translate-clauses" ->
           LET a == InRange(Head1(v), UInt32)
               b == InRange(Rest(v), UInt64)
           IN IF ~a.ok \/ (HasRest(v) /\ ~b.ok) THEN Bad
              ELSE Good(<<[ key |-> key, val |-> a.v, t |-> {} ]>> \o
                        IF HasRest(v) THEN <<[ key |-> "total", val |-> b.v, t |-> {} ]>> ELSE <<>>)
      [] key \in ThrFlags -> Threaded(key, Bool(Head1(v)), v)
      [] key = "sign-value" -> Threaded(key, Sign(Head1(v)), v)
      [] key = "order-heuristic" -> Threaded(key, Heu(Head1(v)), v)

VARIABLES glob, thr   \* global settings, settings of each thread
vars == <<glob, thr>>

RECURSIVE Glob(_, _)
Glob(g, us) == IF us = <<>> THEN g
    ELSE Glob(IF us[1].key \in GlobKeys THEN [ g EXCEPT ![us[1].key] = us[1].val ] ELSE g, Tail(us))
RECURSIVE Thr(_, _)
Thr(h, us) == IF us = <<>> THEN h
    ELSE Thr(IF us[1].key \in ThrKeys
             THEN [ t \in Threads |-> IF t \in us[1].t THEN [ h[t] EXCEPT ![us[1].key] = us[1].val ] ELSE h[t] ]
             ELSE h, Tail(us))

Valid(key, v) == Meaning(key, v).ok
\* clingcon_configure(key, v)
Configure(key, v) ==
    IF Valid(key, v) THEN glob' = Glob(glob, Meaning(key, v).v) /\ thr' = Thr(thr, Meaning(key, v).v)
    ELSE UNCHANGED vars

\* A command line is a sequence of settings [k, v]: general settings are applied
\* before those of single threads.
RECURSIVE Updates(_)
Updates(args) == IF args = <<>> THEN <<>> ELSE Meaning(args[1].k, args[1].v).v \o Updates(Tail(args))
Ordered(us) ==
    LET gen(u) == u.t = {} \/ u.t = Threads
        spec(u) == ~gen(u)
    IN SelectSeq(us, gen) \o SelectSeq(us, spec)
Consistent(g) == Leq(g["min-int"], g["max-int"])
CommandLineOk(args) ==
    /\ \A i \in 1..Len(args) : Valid(args[i].k, args[i].v)
    /\ Consistent(Glob(glob, Updates(args)))
CommandLine(args) ==
    IF CommandLineOk(args) THEN glob' = Glob(glob, Ordered(Updates(args))) /\ thr' = Thr(thr, Ordered(Updates(args)))
    ELSE UNCHANGED vars

NeedsDecide == \E t \in Threads : thr[t]["order-heuristic"]
=============================================================================
