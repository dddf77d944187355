------------------------------ MODULE VarState ------------------------------
(***************************************************************************)
(* The store of order literals of a variable with range 0..N (literals for *)
(* values 0..N-1) and the stacks of its bounds.  The values are places in  *)
(* an order and are mapped to several concrete ranges when the transitions *)
(* are replayed.  Literals are created with one of L names, so that        *)
(* overwriting is visible.  Levels are pushed in ascending order.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Json, TLC

CONSTANTS N, L, D
VARIABLES lit,        \* [0..N-1 -> 0..L], 0: there is no literal
          lo, hi,     \* current bounds
          los, his    \* stacks of saved bounds <<level, bound>>
vars == <<lit, lo, hi, los, his>>

MinB == IF los = <<>> THEN lo ELSE los[1][2]
MaxB == IF his = <<>> THEN hi ELSE his[1][2]
Top(s) == IF s = <<>> THEN 0 ELSE s[Len(s)][1]

Enc == <<[ i \in 1..N |-> lit[i - 1] ], lo, hi, los, his>>
EncP == <<[ i \in 1..N |-> lit'[i - 1] ], lo', hi', los', his'>>
Emit(op) == PrintT(ToJson([t |-> "E", s |-> Enc, o |-> op, d |-> EncP]))

Init == lit = [ v \in 0..N-1 |-> 0 ] /\ lo = 0 /\ hi = N /\ los = <<>> /\ his = <<>>

\* Literals are only introduced for values inside the bounds of level zero.
Set(v, k)  == /\ MinB <= v /\ v < MaxB
              /\ lit' = [ lit EXCEPT ![v] = k ] /\ UNCHANGED <<lo, hi, los, his>> /\ Emit(<<"set", v, k>>)
GetOrAdd(v, k) == /\ MinB <= v /\ v < MaxB
              /\ lit' = [ lit EXCEPT ![v] = IF @ = 0 THEN k ELSE @ ] /\ UNCHANGED <<lo, hi, los, his>> /\ Emit(<<"goa", v, k>>)
Unset(v)   == /\ lit[v] # 0
              /\ lit' = [ lit EXCEPT ![v] = 0 ] /\ UNCHANGED <<lo, hi, los, his>> /\ Emit(<<"unset", v>>)
Lower(v)   == /\ lo <= v /\ v <= hi /\ lo' = v /\ UNCHANGED <<lit, hi, los, his>> /\ Emit(<<"lower", v>>)
Upper(v)   == /\ lo <= v /\ v <= hi /\ hi' = v /\ UNCHANGED <<lit, lo, los, his>> /\ Emit(<<"upper", v>>)
PushL(l)   == /\ Len(los) < D /\ l > Top(los)
              /\ los' = Append(los, <<l, lo>>) /\ UNCHANGED <<lit, lo, hi, his>> /\ Emit(<<"pushl", l>>)
PushU(l)   == /\ Len(his) < D /\ l > Top(his)
              /\ his' = Append(his, <<l, hi>>) /\ UNCHANGED <<lit, lo, hi, los>> /\ Emit(<<"pushu", l>>)
PopL       == /\ los # <<>> /\ lo' = los[Len(los)][2] /\ los' = SubSeq(los, 1, Len(los) - 1)
              /\ UNCHANGED <<lit, hi, his>> /\ Emit(<<"popl">>)
PopU       == /\ his # <<>> /\ hi' = his[Len(his)][2] /\ his' = SubSeq(his, 1, Len(his) - 1)
              /\ UNCHANGED <<lit, lo, los>> /\ Emit(<<"popu">>)
\* Copies (and moves) are indistinguishable from the original.
Copy       == UNCHANGED vars /\ Emit(<<"copy">>)
Assign     == UNCHANGED vars /\ Emit(<<"assign">>)
Move       == UNCHANGED vars /\ Emit(<<"move">>)

LitNext   == \E v \in 0..N-1 : Unset(v) \/ \E k \in 1..L : Set(v, k) \/ GetOrAdd(v, k)
BoundNext == \/ \E v \in 0..N : Lower(v) \/ Upper(v)
             \/ \E l \in 1..D : PushL(l) \/ PushU(l)
             \/ PopL \/ PopU
CopyNext  == Copy \/ Assign \/ Move
Next == LitNext \/ BoundNext \/ CopyNext

\* The nearest literals below and above.
Below(v) == { w \in 0..N-1 : w < v /\ lit[w] # 0 }
Above(v) == { w \in 0..N-1 : w > v /\ lit[w] # 0 }
Lt(v) == LET s == Below(v) IN IF s = {} THEN <<>> ELSE <<Max(s), lit[Max(s)]>>
Gt(v) == LET s == Above(v) IN IF s = {} THEN <<>> ELSE <<Min(s), lit[Min(s)]>>
Le(v) == IF v \in 0..N-1 /\ lit[v] # 0 THEN <<v, lit[v]>> ELSE Lt(v)
Ge(v) == IF v \in 0..N-1 /\ lit[v] # 0 THEN <<v, lit[v]>> ELSE Gt(v)

Answers == [t |-> "S", s |-> Enc, min |-> MinB, max |-> MaxB, as |-> (lo = hi), bd |-> <<lo, hi>>,
            lt |-> [ i \in 1..N+3 |-> Lt(i - 2) ], le |-> [ i \in 1..N+3 |-> Le(i - 2) ],
            gt |-> [ i \in 1..N+3 |-> Gt(i - 2) ], ge |-> [ i \in 1..N+3 |-> Ge(i - 2) ],
            pl |-> [ l \in 1..D |-> Top(los) = l ], pu |-> [ l \in 1..D |-> Top(his) = l ],
            all |-> LET q == SetToSortSeq({ v \in 0..N-1 : lit[v] # 0 }, <) IN [ i \in 1..Len(q) |-> <<q[i], lit[q[i]]>> ] ]
Observe == PrintT(ToJson(Answers))

\* Design: saved bounds are weaker the lower the level.
Nested == /\ \A i \in 1..Len(los) : los[i][2] <= lo
          /\ \A i \in 1..Len(his) : his[i][2] >= hi
          /\ \A i \in 1..Len(los) - 1 : los[i][1] < los[i+1][1] /\ los[i][2] <= los[i+1][2]
          /\ \A i \in 1..Len(his) - 1 : his[i][1] < his[i+1][1] /\ his[i][2] >= his[i+1][2]

Spec == Init /\ [][Next]_vars
LitSpec == Init /\ [][LitNext \/ CopyNext]_vars
=============================================================================
