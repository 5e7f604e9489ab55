---------------------------- MODULE ConcART_MC ----------------------------
EXTENDS ConcART
CONSTANT Family

\* keys whose nodes have prefixes, large and small nodes, with each other as parents and children
K1 == << <<1,1,1>>, <<1,1,2>>, <<1,2>>, <<2>>, <<3>> >>
K2 == << <<1,1,1>>, <<1,1,2>>, <<1,2,1>>, <<1,2,2>> >>
K3 == << <<1>>, <<2>>, <<3>>, <<4,1>>, <<4,2>> >>
MCKeys == CASE Family = 1 -> K1 [] Family = 2 -> K2 [] OTHER -> K3

ASSUME PrintT(<<"KEYS", MCKeys>>)

All == 1..Len(MCKeys)
\* all initial contents, or a quarter of them
CONSTANT Part
MCInits == {S \in SUBSET All : CASE Part = 0 -> TRUE [] Part = 1 -> 1 \in S /\ 3 \in S [] Part = 2 -> 1 \in S /\ 3 \notin S
                                 [] Part = 3 -> 1 \notin S /\ 3 \in S [] OTHER -> 1 \notin S /\ 3 \notin S}
\* a single scene, for what happens when a safeguard is missing
CONSTANT Case
W(o, k) == {<< <<o, k>> >>}
Cases == << [i |-> {},           t |-> <<W("put", 1), W("put", 1)>>],
            [i |-> {1, 2},       t |-> <<W("put", 3), W("put", 3)>>],
            [i |-> {1, 2, 3, 4}, t |-> <<W("del", 1), W("del", 4)>>],
            [i |-> {1, 2, 4},    t |-> <<W("put", 3), W("put", 5)>>],
            [i |-> {1, 2, 3, 4}, t |-> <<W("del", 1), W("del", 1)>>],
            [i |-> {1, 2, 3, 4}, t |-> <<W("del", 3), W("put", 5)>>],
            [i |-> {1, 2},       t |-> <<W("put", 1), W("put", 1)>>],
            [i |-> {1, 2, 3},    t |-> <<W("del", 3), W("put", 3)>>] >>
CaseInits == {Cases[Case].i}
CaseTodo == Cases[Case].t
Writes == {<<o, k>> : o \in {"put", "del"}, k \in All}
Reads  == {<<"get", k>> : k \in All}
One(S) == {<<x>> : x \in S}
\* two writers, the first one followed by a lookup
TwoWriters == <<One(Writes), One(Writes)>>
WriterReader == <<One(Writes), One(Reads)>>
TwoEach == <<{<<a, b>> : a \in Writes, b \in Writes}, One(Writes)>>
ThreeWriters == <<One(Writes), One(Writes), One(Writes)>>

\* threads are interchangeable
Rank(o) == 3 * o[2] + (CASE o[1] = "put" -> 0 [] o[1] = "del" -> 1 [] OTHER -> 2)
Ordered == \A t \in 2..Len(Todo) : Todo[t] = Todo[t - 1] => Rank(th[t - 1].todo[1]) <= Rank(th[t].todo[1])
MCSpec == Init /\ Ordered /\ [][Next]_vars
MCFairSpec == MCSpec /\ \A t \in Threads : WF_vars(Step(t))
============================================================================
