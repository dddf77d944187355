---------------------------- MODULE UniqueVector ----------------------------
(***************************************************************************)
(* A list of distinct elements of 1..N: appending an element that is       *)
(* contained has no effect.  TLC prints all transitions (E) and states (S). *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Json, TLC

CONSTANTS N
VARIABLES v

In(x, s) == \E i \in 1..Len(s) : s[i] = x
App(s, x) == IF In(x, s) THEN s ELSE Append(s, x)

Init == v = <<>>
Emit(op, res) == PrintT(ToJson([t |-> "E", s |-> v, o |-> op, d |-> v', r |-> res]))

AppendOne(x) == v' = App(v, x) /\ Emit(<<"append", x>>, IF In(x, v) THEN 0 ELSE 1)
Extend(x, y, z) == v' = App(App(App(v, x), y), z) /\ Emit(<<"extend", x, y, z>>, Len(v') - Len(v))
Erase(i)     == v' = SubSeq(v, 1, i - 1) \o SubSeq(v, i + 1, Len(v)) /\ Emit(<<"erase", i>>, 0)
Clear        == v' = <<>> /\ Emit(<<"clear">>, 0)

Next == \/ \E x \in 1..N : AppendOne(x)
        \/ \E x, y, z \in 1..N : Extend(x, y, z)
        \/ \E i \in 1..Len(v) : Erase(i)
        \/ Clear

Observe == PrintT(ToJson([t |-> "S", s |-> v, c |-> [ x \in 1..N |-> In(x, v) ], n |-> Len(v)]))
Distinct == \A i \in 1..Len(v) : \A j \in 1..i-1 : v[i] # v[j]

Spec == Init /\ [][Next]_v
=============================================================================
