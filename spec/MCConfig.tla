------------------------------ MODULE MCConfig ------------------------------
(* Design properties of option handling, checked exhaustively.               *)
EXTENDS Config, TLC

C(s) == s
Y == <<"y", "e", "s">>
N == <<"n", "o">>
Settings == {
    [ k |-> "refine-reasons", v |-> Y ], [ k |-> "refine-reasons", v |-> N \o <<",", "1">> ],
    [ k |-> "refine-reasons", v |-> Y \o <<",", "0", "2">> ], [ k |-> "refine-reasons", v |-> N \o <<",", "3">> ],
    [ k |-> "sign-value", v |-> <<"-">> ], [ k |-> "sign-value", v |-> <<"7", ",", "0">> ], [ k |-> "sign-value", v |-> <<>> ],
    [ k |-> "order-heuristic", v |-> <<"n", "o", "n", "e">> ],
    [ k |-> "order-heuristic", v |-> <<"m", "a", "x", "-", "c", "h", "a", "i", "n", ",", "1">> ],
    [ k |-> "min-int", v |-> <<"3">> ], [ k |-> "max-int", v |-> <<"-", "2">> ],
    [ k |-> "min-int", v |-> <<"1", "0", "7", "3", "7", "4", "1", "8", "2", "4">> ],
    [ k |-> "translate-clauses", v |-> <<"5", ",", "9">> ], [ k |-> "translate-clauses", v |-> <<"4">> ],
    [ k |-> "translate-pb", v |-> <<"1", ".", "5">> ], [ k |-> "sort-constraints", v |-> N ] }
\* A command line gives each setting at most once.
Target(a) == <<a.k, IF a.k \in ThrKeys THEN Rest(a.v) ELSE <<>>>>
Distinct(as) == \A i, j \in 1..Len(as) : i # j => Target(as[i]) # Target(as[j])
Lines == { <<a, b>> : a \in Settings, b \in Settings } \cup { <<a, b, c>> : a \in Settings, b \in Settings, c \in Settings }

VARIABLE n
Init ==
    /\ n = 0
    /\ glob = [ k \in GlobKeys |-> IF k \in Flags THEN TRUE ELSE IF k = "min-int" THEN Value.lo ELSE IF k = "max-int" THEN Value.hi ELSE Pos(<<0>>) ]
    /\ thr = [ t \in Threads |-> [ k \in ThrKeys |-> IF k = "sign-value" THEN Pos(<<0>>) ELSE FALSE ] ]
Next ==
    /\ n < 3 /\ n' = n + 1
    /\ \E a \in Settings : Configure(a.k, a.v)
Spec == Init /\ [][Next]_<<vars, n>>

\* Only the given setting changes, and it has the given value afterwards.
Frame ==
    \A a \in Settings : Configure(a.k, a.v) =>
        /\ ~Valid(a.k, a.v) => UNCHANGED vars
        /\ Valid(a.k, a.v) =>
             LET us == Meaning(a.k, a.v).v
                 hit(key, t) == \E i \in 1..Len(us) : us[i].key = key /\ (key \in ThrKeys => t \in us[i].t)
             IN /\ \A key \in GlobKeys : ~hit(key, 0) => glob'[key] = glob[key]
                /\ \A t \in Threads, key \in ThrKeys : ~hit(key, t) => thr'[t][key] = thr[t][key]
                /\ \A i \in 1..Len(us) : IF us[i].key \in GlobKeys THEN glob'[us[i].key] = us[i].val
                                          ELSE \A t \in us[i].t : thr'[t][us[i].key] = us[i].val
\* The order of the settings of a command line does not matter, and settings of
\* threads override general ones.
Perms(as) == { [ i \in 1..Len(as) |-> as[p[i]] ] : p \in { q \in [ 1..Len(as) -> 1..Len(as) ] : \A i, j \in 1..Len(as) : i # j => q[i] # q[j] } }
Result(as) == <<Glob(glob, Ordered(Updates(as))), Thr(thr, Ordered(Updates(as)))>>
OrderIndependent ==
    n = 0 => \A as \in Lines : Distinct(as) /\ (\A i \in 1..Len(as) : Valid(as[i].k, as[i].v)) =>
        /\ \A bs \in Perms(as) : Result(bs) = Result(as) /\ CommandLineOk(bs) = CommandLineOk(as)
        /\ \A i \in 1..Len(as) : as[i].k \in ThrKeys /\ HasRest(as[i].v) =>
             Result(as)[2][Thread(Rest(as[i].v))][as[i].k] = Meaning(as[i].k, as[i].v).v[1].val
FrameProp == [][Frame]_<<vars, n>>
=============================================================================
