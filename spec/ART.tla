-------------------------------- MODULE ART --------------------------------
(* The data structure and the algorithms of the tree, one operation at a     *)
(* time: an adaptive radix tree with path compression that does not store    *)
(* keys.                                                                     *)
(*                                                                           *)
(* A node has the byte that leads to it, a prefix, and its children in the   *)
(* order of their bytes.  A node is "full" (a node-256) or variable sized.   *)
(* A leaf has the byte that leads to it and a value; the user of the tree    *)
(* knows to which key a value belongs.                                       *)
(*                                                                           *)
(* The limits of the code are kept (a node is full from 128 children on, and *)
(* shrinks at 64); to make it possible to reach them, a byte of the model    *)
(* may stand for many real ones: Weight(b) real bytes, each ending a key.    *)
(* Such keys are inserted and deleted together.                              *)
(*                                                                           *)
(* TLC checks for every tree that can be reached with the keys of a universe *)
(* that each query answers what MapOps admits, and prints the shortest       *)
(* history that leads to each kind of situation, for being replayed in the   *)
(* real code.                                                                *)
EXTENDS MapOps, TLC

CONSTANTS Universes,     \* a sequence of sorted sequences of keys
          MaxVer,        \* values are distinguished by versions 0..MaxVer
          BatchSize,     \* an iterator stops scanning when it has more than this many values
          Variant,       \* "" or the name of a mistake, see below
          Scripts        \* "none", "each" kind of situation, or "pairs" of consecutive ones

FullFrom == 128
ShrinkAt == 64
Weight(b) == IF b >= 1000 THEN b \div 1000 ELSE 1

VARIABLES uni, root, kv, hist, cls

vars == <<uni, root, kv, hist, cls>>

K  == Universes[uni]
Ab == 0
Val(i, ver) == 2 * i + ver       \* the value with version ver of key number i
Owner(v) == v \div 2
Ver(v) == v % 2

Nil == [t |-> "nil"]
Leaf(b, v) == [t |-> "leaf", b |-> b, v |-> v]
Node(b, pre, full, kids) == [t |-> "node", b |-> b, pre |-> pre, full |-> full, kids |-> kids]
IsLeaf(x) == x.t = "leaf"

WCount(kids) == FoldLeft(LAMBDA acc, c : acc + Weight(c.b), 0, kids)

\* position of the child with byte b in a sequence of children, 0 if there is none
PosOf(kids, b) == LET s == {i \in 1..Len(kids) : kids[i].b = b} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE
InsertKid(kids, c) ==
    LET n == Cardinality({i \in 1..Len(kids) : kids[i].b < c.b})
    IN SubSeq(kids, 1, n) \o <<c>> \o SubSeq(kids, n + 1, Len(kids))
From(s, i) == SubSeq(s, i, Len(s))

(***************************************************************************)
(* Lookups skip prefixes without comparing them.                            *)
(***************************************************************************)
RECURSIVE Descend(_, _, _)
Descend(n, key, d) ==     \* d bytes have been consumed before the prefix of n
    LET d2 == d + Len(n.pre)
    IN IF d2 >= Len(key) THEN Nil
       ELSE LET i == PosOf(n.kids, key[d2 + 1])
            IN IF i = 0 THEN Nil
               ELSE IF IsLeaf(n.kids[i]) THEN n.kids[i]
               ELSE Descend(n.kids[i], key, d2 + 1)
Search(r, key) ==
    IF r = Nil THEN Nil
    ELSE IF IsLeaf(r) THEN IF Len(key) > 0 /\ r.b = key[1] THEN r ELSE Nil
    ELSE Descend(r, key, 0)

(***************************************************************************)
(* Updates.  The result has the kind of the change, the leaf shown to the   *)
(* caller, the new subtree, and a description of the situation.             *)
(***************************************************************************)
Pair(a, b) == IF a.b < b.b THEN <<a, b>> ELSE <<b, a>>
\* sizes that matter
SizeClass(n) == CASE n <= 3 -> n [] n < 64 -> 10 [] n \in 64..66 -> n [] n < 126 -> 70 [] n \in 126..129 -> n [] OTHER -> 130
Side(kids, b) == LET n == Cardinality({i \in 1..Len(kids) : kids[i].b < b}) IN IF n = 0 THEN "first" ELSE IF n = Len(kids) THEN "last" ELSE "inner"
Situation(n, b, top) == <<SizeClass(WCount(n.kids)), n.full, MinNat(Len(n.pre), 2), Side(n.kids, b), top>>

RECURSIVE UpNode(_, _, _, _, _, _)
UpNode(n, key, d, v, fkeys, up) ==
    LET i == LCP(n.pre, From(key, d + 1)) + 1     \* the first mismatch
    IN IF i <= Len(n.pre)
       THEN LET low == [n EXCEPT !.b = n.pre[i], !.pre = From(n.pre, i + 1)]
            IN [kind |-> "nodePrefixMiss", shown |-> Nil,
                new |-> Node(n.b, SubSeq(n.pre, 1, i - 1), FALSE, Pair(Leaf(key[d + i], v), low)),
                cls |-> <<"nodePrefixMiss", MinNat(i, 3), MinNat(Len(n.pre) - i, 2), n.full, SizeClass(WCount(n.kids)), key[d + i] < n.pre[i], up>>]
       ELSE
       LET d2 == d + Len(n.pre)
           b  == key[d2 + 1]
           p  == PosOf(n.kids, b)
       IN CASE p = 0 ->
                 LET c == WCount(n.kids) + Weight(b)
                 IN [kind |-> IF n.full THEN "nodeLeafInsert256" ELSE "nodeLeafInsert", shown |-> Nil,
                     new |-> [n EXCEPT !.kids = InsertKid(@, Leaf(b, v)), !.full = @ \/ c >= FullFrom],
                     cls |-> <<"nodeLeafInsert", Situation(n, b, up), Weight(b) > 1>>]
            [] p > 0 /\ IsLeaf(n.kids[p]) ->
                 LET old == n.kids[p]
                     fk  == fkeys[Owner(old.v)]
                     m   == LCP(From(key, d2 + 2), From(fk, d2 + 2))
                     lf  == IF fk = key THEN Leaf(b, v)
                            ELSE Node(b, SubSeq(key, d2 + 2, d2 + 1 + m), FALSE,
                                      Pair(Leaf(key[d2 + 2 + m], v), Leaf(fk[d2 + 2 + m], old.v)))
                 IN [kind |-> IF n.full THEN "nodeLeafUpdate256" ELSE "nodeLeafUpdate", shown |-> old,
                     new |-> [n EXCEPT !.kids[p] = lf],
                     cls |-> <<"nodeLeafUpdate", Situation(n, b, up), fk = key, MinNat(m, 2)>>]
            [] OTHER ->
                 LET r == UpNode(n.kids[p], key, d2 + 1, v, fkeys, IF n.full THEN "full" ELSE "node")
                 IN [r EXCEPT !.new = [n EXCEPT !.kids[p] = r.new]]

UpRoot(r, key, v, fkeys) ==
    CASE r = Nil -> [kind |-> "replaceEmptyRootWithLeaf", shown |-> Nil, new |-> Leaf(key[1], v), cls |-> <<"replaceEmptyRootWithLeaf">>]
      [] r # Nil /\ IsLeaf(r) /\ r.b # key[1] ->
            LET fk == fkeys[Owner(r.v)] IN
            [kind |-> "replaceLeafRootWithNode", shown |-> Nil, new |-> Node(0, <<>>, FALSE, Pair(Leaf(key[1], v), r)),
             cls |-> <<"replaceLeafRootWithNode", key[1] < r.b>>]
      [] r # Nil /\ IsLeaf(r) /\ r.b = key[1] ->
            LET fk == fkeys[Owner(r.v)]
                m  == LCP(key, fk)
            IN [kind |-> "rootLeafUpdate", shown |-> r,
                new |-> IF fk = key THEN Leaf(r.b, v)
                        ELSE Node(0, SubSeq(key, 1, m), FALSE, Pair(Leaf(key[m + 1], v), Leaf(fk[m + 1], r.v))),
                cls |-> <<"rootLeafUpdate", fk = key, MinNat(m, 3)>>]
      [] OTHER -> UpNode(r, key, 0, v, fkeys, "root")

(***************************************************************************)
(* Deletes.                                                                 *)
(***************************************************************************)
NotFound == [kind |-> "notFound", shown |-> Nil, new |-> Nil, cls |-> <<"notFound">>]

RECURSIVE DelNode(_, _, _, _)
DelNode(n, key, d, up) ==
    LET d2 == d + Len(n.pre)
    IN IF d2 >= Len(key) THEN NotFound ELSE
       LET b == key[d2 + 1]
           p == PosOf(n.kids, b)
       IN IF p = 0 THEN NotFound
          ELSE IF ~IsLeaf(n.kids[p])
          THEN LET r == DelNode(n.kids[p], key, d2 + 1, IF n.full THEN "full" ELSE "node")
               IN IF r.kind = "notFound" THEN r ELSE [r EXCEPT !.new = [n EXCEPT !.kids[p] = r.new]]
          ELSE LET left == RemoveAt(n.kids, p)
                   w    == WCount(left)
               IN CASE w > 1 ->
                         [kind |-> IF n.full THEN "deleteLeaf256" ELSE "deleteLeaf", shown |-> n.kids[p],
                          new |-> [n EXCEPT !.kids = left, !.full = @ /\ (w > ShrinkAt \/ Variant = "never shrink")],
                          cls |-> <<"deleteLeaf", Situation(n, b, up), Weight(b) > 1>>]
                    [] w = 1 /\ IsLeaf(left[1]) ->
                         [kind |-> "replaceNodeWithLeaf", shown |-> n.kids[p],
                          new |-> Leaf(IF up = "root"
                                       THEN IF n.pre # <<>> /\ Variant # "root keeps byte" THEN key[1] ELSE left[1].b
                                       ELSE key[d], left[1].v),
                          cls |-> <<"replaceNodeWithLeaf", MinNat(Len(n.pre), 2), p, up>>]
                    [] OTHER ->
                         LET c == left[1] IN
                         [kind |-> "replaceNodeWithNode", shown |-> n.kids[p],
                          new |-> [c EXCEPT !.b = n.b, !.pre = n.pre \o (IF Variant = "drop child byte" THEN <<>> ELSE <<c.b>>) \o c.pre],
                          cls |-> <<"replaceNodeWithNode", MinNat(Len(n.pre), 2), MinNat(Len(c.pre), 2), c.full, SizeClass(WCount(c.kids)), p, up>>]

DelRoot(r, key) ==
    IF r = Nil THEN NotFound
    ELSE IF IsLeaf(r)
         THEN IF Len(key) > 0 /\ r.b = key[1] THEN [kind |-> "deleteRoot", shown |-> r, new |-> Nil, cls |-> <<"deleteRoot">>] ELSE NotFound
    ELSE DelNode(r, key, 0, "root")

(***************************************************************************)
(* Min, max, count, iteration start at the node a search prefix leads to;   *)
(* this search compares the prefixes of nodes.                              *)
(***************************************************************************)
RECURSIVE PartNode(_, _, _)
PartNode(n, p, d) ==   \* <<node or leaf, depth>>
    IF d >= Len(p) THEN <<n, d>>
    ELSE LET m == LCP(n.pre, From(p, d + 1))
         IN IF d + m >= Len(p) THEN <<n, d>>
            ELSE IF m < Len(n.pre) THEN <<Nil, 0>>
            ELSE LET d2 == d + m
                     i  == PosOf(n.kids, p[d2 + 1])
                 IN IF i = 0 THEN <<Nil, 0>>
                    ELSE IF IsLeaf(n.kids[i]) THEN <<n.kids[i], d2>>
                    ELSE PartNode(n.kids[i], p, d2 + 1)
Part(r, p) ==
    IF r = Nil \/ p = <<>> THEN <<r, 0>>
    ELSE IF IsLeaf(r) THEN IF r.b = p[1] THEN <<r, 0>> ELSE <<Nil, 0>>
    ELSE PartNode(r, p, 0)

RECURSIVE Edge(_, _)
Edge(n, mx) == IF IsLeaf(n) THEN n ELSE Edge(n.kids[IF mx THEN Len(n.kids) ELSE 1], mx)
Extreme(r, p, mx) == LET n == Part(r, p)[1] IN IF n = Nil THEN Nil ELSE Edge(n, mx)

\* leaves, nodes, nodes with a prefix, sum of prefix lengths
RECURSIVE Census(_)
Census(n) ==
    IF IsLeaf(n) THEN [leaves |-> 1, nodes |-> 0, withp |-> 0, total |-> 0]
    ELSE FoldLeft(LAMBDA acc, c : LET x == Census(c) IN [leaves |-> acc.leaves + x.leaves, nodes |-> acc.nodes + x.nodes,
                                                        withp |-> acc.withp + x.withp, total |-> acc.total + x.total],
                  [leaves |-> 0, nodes |-> 1, withp |-> IF n.pre = <<>> THEN 0 ELSE 1, total |-> Len(n.pre)], n.kids)
Count(r, p) == LET n == Part(r, p)[1] IN IF n = Nil THEN [leaves |-> 0, nodes |-> 0, withp |-> 0, total |-> 0] ELSE Census(n)

(***************************************************************************)
(* Iteration.  A scan yields the leaves in order; after a node that ends a  *)
(* branch it stops if it has more than BatchSize values, and is resumed at  *)
(* the path of the next child.  Step: [vals, at (path to resume at), done]. *)
(* stk is a sequence of <<node, next child, path of node's prefix end>>.    *)
(***************************************************************************)
RECURSIVE Scan(_, _, _, _, _)
Scan(n, k, path, stk, vals) ==   \* path: all bytes before n's prefix
    IF k <= Len(n.kids)
    THEN LET c == n.kids[k] IN
         IF IsLeaf(c) THEN Scan(n, k + 1, path, stk, Append(vals, c.v))
         ELSE Scan(c, 1, path \o n.pre \o <<c.b>>, Append(stk, <<n, k + 1, path>>), vals)
    ELSE IF stk = <<>> THEN [vals |-> vals, at |-> <<>>, done |-> TRUE]
    ELSE IF Len(vals) > BatchSize
    THEN LET more == {i \in 1..Len(stk) : stk[i][2] <= Len(stk[i][1].kids)}
         IN IF more = {} THEN [vals |-> vals, at |-> <<>>, done |-> TRUE]
            ELSE LET top == stk[CHOOSE i \in more : \A j \in more : j <= i]
                 IN [vals |-> vals, at |-> top[3] \o top[1].pre \o <<top[1].kids[top[2]].b>>, done |-> FALSE]
    ELSE LET top == stk[Len(stk)] IN Scan(top[1], top[2], top[3], SubSeq(stk, 1, Len(stk) - 1), vals)

\* find the first child not before path at
RECURSIVE Resume(_, _, _, _)
Resume(n, path, at, stk) ==
    LET d == Len(path) IN
    IF d >= Len(at) THEN Scan(n, 1, path, stk, <<>>)
    ELSE LET rest == From(at, d + 1)
             go(k) == Scan(n, k, path, stk, <<>>)
         IN IF Len(n.pre) >= Len(rest) THEN go(IF n.pre # rest /\ Less(n.pre, rest) THEN Len(n.kids) + 1 ELSE 1)
            ELSE IF n.pre # SubSeq(rest, 1, Len(n.pre))
                 THEN go(IF Less(n.pre, rest) THEN Len(n.kids) + 1 ELSE 1)
            ELSE LET b == rest[Len(n.pre) + 1]
                     k == Cardinality({i \in 1..Len(n.kids) : n.kids[i].b < b}) + 1
                 IN IF k > Len(n.kids) \/ n.kids[k].b # b \/ IsLeaf(n.kids[k]) THEN go(k)
                    ELSE Resume(n.kids[k], path \o n.pre \o <<b>>, at, Append(stk, <<n, k + 1, path>>))

IterStep(r, p, at) ==
    LET x == Part(r, p)
        n == x[1]
    IN IF n = Nil THEN [vals |-> <<>>, at |-> <<>>, done |-> TRUE]
       ELSE IF IsLeaf(n) THEN [vals |-> <<n.v>>, at |-> <<>>, done |-> TRUE]
       ELSE Resume(n, SubSeq(p, 1, x[2]), at, <<>>)

RECURSIVE IterAll(_, _, _, _)
IterAll(r, p, at, fuel) ==
    LET s == IterStep(r, p, at)
    IN IF s.done \/ fuel = 0 THEN s.vals ELSE s.vals \o IterAll(r, p, s.at, fuel - 1)

(***************************************************************************)
(* Histories.                                                               *)
(***************************************************************************)
Present == {i \in 1..Len(K) : kv[i] # Ab}
Group(i) == Weight(K[i][Len(K[i])]) > 1
Stem(i) == SubSeq(K[i], 1, Len(K[i]) - 1)
\* no key is a prefix of another, and the keys of a group are not alone in their node
Proper(S) == /\ \A i, j \in S : i # j => ~IsPre(K[i], K[j])
             /\ \A i \in S : Group(i) => \E j \in S : j # i /\ IsPre(Stem(i), K[j])

Init == /\ uni \in 1..Len(Universes)
        /\ root = Nil
        /\ kv = [i \in 1..Len(Universes[uni]) |-> 0]
        /\ hist = <<>>
        /\ cls = <<>>

Put(i) ==
    /\ Proper(Present \cup {i})
    /\ LET v == Val(i, IF kv[i] = Ab \/ MaxVer = 0 THEN 0 ELSE 1 - Ver(kv[i]))
           r == UpRoot(root, K[i], v, K)
       IN /\ root' = r.new
          /\ kv' = [kv EXCEPT ![i] = v]
          /\ cls' = r.cls
          /\ hist' = Append(hist, i)
    /\ UNCHANGED uni

Del(i) ==
    /\ i \in Present
    /\ Proper(Present \ {i})
    /\ LET r == DelRoot(root, K[i])
       IN /\ r.shown # Nil /\ Owner(r.shown.v) = i
          /\ root' = r.new
          /\ kv' = [kv EXCEPT ![i] = Ab]
          /\ cls' = r.cls
          /\ hist' = Append(hist, 0 - i)
    /\ UNCHANGED uni

Next == \E i \in 1..Len(K) : Put(i) \/ Del(i)
Spec == Init /\ [][Next]_vars
View == <<uni, root, kv>>

(***************************************************************************)
(* What holds of every tree.                                                *)
(***************************************************************************)
Asked == UNION {{SubSeq(K[i], 1, n) : n \in 0..Len(K[i])} : i \in 1..Len(K)} \cup {K[i] \o <<1>> : i \in 1..Len(K)}
Answer(x) == IF x = Nil THEN <<FALSE, 0, 0>> ELSE <<TRUE, x.v, Owner(x.v)>>

LookupOK == \A i \in 1..Len(K) :
    LET a == Answer(Search(root, K[i])) IN ProbeOK(kv, Ab, i, a[1], a[2], a[3])
\* lookups and prepared deletes of any byte string
StrangerOK == \A p \in Asked :
    LET a == Answer(Search(root, p))
        b == Answer(DelRoot(root, p).shown)
    IN StrangeOK(kv, Ab, a[1], a[2], a[3]) /\ a = b
\* every prepared change shows what is there, whether it is finalized or aborted
PrepareOK == \A i \in 1..Len(K) :
    Proper(Present \cup {i}) =>
      LET a == Answer(UpRoot(root, K[i], Val(i, 0), K).shown) IN ProbeOK(kv, Ab, i, a[1], a[2], a[3])
DeletableOK == \A i \in Present : DelRoot(root, K[i]).shown = Search(root, K[i])
ExtremesOK == \A p \in Asked, mx \in BOOLEAN :
    LET a == Answer(Extreme(root, p, mx)) IN ExtOK(K, kv, Ab, p, mx, a[1], a[2])
IterationOK == \A p \in Asked : IterOK(K, kv, Ab, p, IterAll(root, p, <<>>, Len(K) + 2))
CountsOK == \A p \in Asked :
    LET c == Count(root, p)
        s == ShapeDecl(K, kv, Ab, p)
    IN /\ LeavesOK(K, kv, Ab, p, c.leaves)
       /\ c.nodes = s.nodes /\ c.withp = s.withp /\ c.total = s.total

\* children in order, at least two, of the right kind of node
RECURSIVE WellFormed(_)
WellFormed(n) ==
    n = Nil \/ IsLeaf(n) \/
    /\ WCount(n.kids) >= 2
    /\ \A i \in 1..(Len(n.kids) - 1) : n.kids[i].b < n.kids[i + 1].b
    /\ IF n.full THEN WCount(n.kids) > ShrinkAt ELSE WCount(n.kids) < FullFrom
    /\ \A i \in 1..Len(n.kids) : WellFormed(n.kids[i])
ShapeOK == WellFormed(root)

(***************************************************************************)
(* Scripts for the real code: the shortest history for each situation.      *)
(***************************************************************************)
ASSUME TLCSet(1, {})
ASSUME Scripts = "none" \/ \A u \in 1..Len(Universes) : PrintT(<<"UNIVERSE", u, Universes[u]>>)
Emit(c) == IF c \in TLCGet(1) THEN TRUE
           ELSE TLCSet(1, TLCGet(1) \cup {c}) /\ PrintT(<<"SCRIPT", uni, hist'>>)
Cover == CASE Scripts = "none" -> TRUE
           [] Scripts = "each" -> Emit(cls')
           [] OTHER -> Emit(<<cls, cls'>>)
=============================================================================
