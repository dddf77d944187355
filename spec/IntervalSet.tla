----------------------------- MODULE IntervalSet -----------------------------
(***************************************************************************)
(* Two sets of integers over unit cells 0..N-1, where cell i stands for    *)
(* the integers between the i-th and the (i+1)-th of N+1 ascending bounds. *)
(* TLC prints every transition (E) and for every state (S) the answers to   *)
(* all queries about the first set; both are replayed into the class used  *)
(* for domains.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC

CONSTANTS N
VARIABLES a, b
vars == <<a, b>>

Cells == 0 .. N - 1
Span(x, y) == { i \in Cells : x <= i /\ i < y }

RECURSIVE Mask(_, _)
Mask(s, i) == IF i = N THEN 0 ELSE 2 * Mask(s, i + 1) + (IF i \in s THEN 1 ELSE 0)
M(s) == Mask(s, 0)

\* The maximal intervals of a set in ascending order.
Starts(s) == { i \in s : i - 1 \notin s }
EndOf(s, i) == CHOOSE e \in i+1 .. N : Span(i, e) \subseteq s /\ e \notin s
Intervals(s) == LET st == SetToSortSeq(Starts(s), <) IN [ k \in 1..Len(st) |-> <<st[k], EndOf(s, st[k])>> ]

Init == a = {} /\ b = {}

Emit(op) == PrintT(ToJson([t |-> "E", s |-> <<M(a), M(b)>>, o |-> op, d |-> <<M(a'), M(b')>>]))

Add(x, y)  == a' = a \cup Span(x, y) /\ b' = b /\ Emit(<<"add", x, y>>)
AddB(x, y) == b' = b \cup Span(x, y) /\ a' = a /\ Emit(<<"addb", x, y>>)
Extend     == a' = a \cup b /\ b' = b /\ Emit(<<"extend">>)
Copy       == b' = a /\ a' = a /\ Emit(<<"copy">>)
Clear      == a' = {} /\ b' = b /\ Emit(<<"clear">>)
Swap       == a' = b /\ b' = a /\ Emit(<<"swap">>)

Next ==
    \/ \E x, y \in 0..N : Add(x, y) \/ AddB(x, y)
    \/ Extend \/ Copy \/ Clear \/ Swap

\* Answers to queries in the state.
Answers == [t |-> "S", s |-> <<M(a), M(b)>>, iv |-> Intervals(a), e |-> (a = {}),
            c |-> [ i \in 1..N |-> (i - 1) \in a ],
            cc |-> { <<x, y>> \in (0..N) \X (0..N) : x < y /\ Span(x, y) \subseteq a },
            ci |-> { <<x, y>> \in (0..N) \X (0..N) : Span(x, y) \cap a # {} }]
Observe == PrintT(ToJson(Answers))

\* Design: the intervals are disjoint, not even adjacent, and cover the set.
Canonical == LET iv == Intervals(a) IN
    /\ UNION { Span(iv[k][1], iv[k][2]) : k \in 1..Len(iv) } = a
    /\ \A k \in 1..Len(iv) - 1 : iv[k][2] < iv[k + 1][1]

Spec == Init /\ [][Next]_vars
=============================================================================
