---------------------------- MODULE MapOpsTest ----------------------------
(* The shape computed in one pass over neighbouring keys (ShapeOf), which    *)
(* traces are judged by, is the shape by definition (ShapeDecl), for every   *)
(* content of some universes of keys and every prefix.                       *)
EXTENDS MapOps

Universes ==
    << << <<1>>, <<2,1,1>>, <<2,1,2>>, <<2,2>>, <<2,3,1,1>>, <<2,3,1,2>>, <<2,3,2>>, <<3,1>>, <<3,2>>, <<4,4,4,4>> >>,
       << <<0,0,0>>, <<0,0,1>>, <<0,1,0>>, <<0,1,1>>, <<1,0,0>>, <<1,0,1>>, <<1,1,0>>, <<1,1,1>>, <<2>> >>,
       << <<5,5,5,5,5,1>>, <<5,5,5,5,5,2>>, <<5,5,5,6>>, <<5,6>>, <<5,7,1>>, <<5,7,2>>, <<5,7,3>>, <<5,7,4>> >>,
       [i \in 1..6 |-> [j \in 1..8 |-> 7] \o <<i>>],
       [i \in 1..4 |-> [j \in 1..(250 + 5 * i) |-> 7] \o <<8>> \o [j \in 1..20 |-> 1]] >>

VARIABLES uni, present
vars == <<uni, present>>
\* keys in order
U == [u \in 1..Len(Universes) |-> SetToSortSeq({Universes[u][i] : i \in 1..Len(Universes[u])}, LAMBDA a, b : Less(a, b))]
Init == uni \in 1..Len(U) /\ present \in SUBSET (1..Len(U[uni]))
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
KV == [i \in 1..Len(U[uni]) |-> IF i \in present THEN i ELSE 0]
Asked == {<<>>} \cup UNION {{SubSeq(U[uni][i], 1, n) : n \in {m \in 1..Len(U[uni][i]) : m < 7 \/ m > 252}} : i \in 1..Len(U[uni])}
LegalOK == LegalKeys(U[uni])
AgreeOK == \A p \in Asked : ShapeOf(U[uni], LcpTable(U[uni]), KV, 0, p) = ShapeDecl(U[uni], KV, 0, p)
===========================================================================
