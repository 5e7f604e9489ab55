------------------------------- MODULE MapOps -------------------------------
(* What every query of the tree answers, as a function of the abstract       *)
(* content: keys is a sorted sequence of byte strings (the universe of a     *)
(* trace or a model) and kv[i] the value stored under keys[i], or ab if      *)
(* keys[i] is absent.  No key is a prefix of another.                        *)
EXTENDS Bytes, Integers, SequencesExt, FiniteSetsExt, TLC

Has(kv, ab, i) == kv[i] # ab

\* indices of present keys having prefix p, in order
Matching(keys, kv, ab, p) ==
    SelectSeq([i \in 1..Len(keys) |-> i], LAMBDA i : kv[i] # ab /\ IsPre(p, keys[i]))

Size(kv, ab) == Cardinality({i \in DOMAIN kv : kv[i] # ab})

\* v is the value of some present key; k is the claimed owner (0: unknown)
Genuine(kv, ab, k, v) == k \in DOMAIN kv /\ kv[k] # ab /\ kv[k] = v

(***************************************************************************)
(* A lookup or prepare of key k answered (f, v), v belonging to key kk.     *)
(***************************************************************************)
ProbeOK(kv, ab, k, f, v, kk) ==
    IF kv[k] # ab THEN f /\ v = kv[k] /\ kk = k
                  ELSE f => kk # k /\ Genuine(kv, ab, kk, v)

\* for a key outside of the universe
StrangeOK(kv, ab, f, v, kk) == f => Genuine(kv, ab, kk, v)

(***************************************************************************)
(* An iteration with prefix p yielded vals, a sequence of values.           *)
(***************************************************************************)
IterOK(keys, kv, ab, p, vals) ==
    LET m == Matching(keys, kv, ab, p)
    IN IF m = <<>>
       THEN \/ vals = <<>>
            \/ Len(vals) = 1 /\ \E i \in DOMAIN kv : kv[i] # ab /\ kv[i] = vals[1]
       ELSE Len(vals) = Len(m) /\ \A j \in 1..Len(m) : kv[m[j]] = vals[j]

\* the first items of an iteration that was given up
IterPartOK(keys, kv, ab, p, vals) ==
    LET m == Matching(keys, kv, ab, p)
    IN IF m = <<>>
       THEN Len(vals) <= 1 /\ (vals # <<>> => \E i \in DOMAIN kv : kv[i] # ab /\ kv[i] = vals[1])
       ELSE Len(vals) <= Len(m) /\ \A j \in 1..Len(vals) : kv[m[j]] = vals[j]

\* min (mx = FALSE) or max query with prefix p answered (f, v)
ExtOK(keys, kv, ab, p, mx, f, v) ==
    LET m == Matching(keys, kv, ab, p)
    IN IF m # <<>>
       THEN f /\ v = kv[m[IF mx THEN Len(m) ELSE 1]]
       ELSE f => \E i \in DOMAIN kv : kv[i] # ab /\ kv[i] = v

(***************************************************************************)
(* The shape of the minimal path compressed tree.  A branch is the path to  *)
(* a point where present keys diverge.  lc[i] = LCP(keys[i], keys[i+1]).    *)
(***************************************************************************)
LcpTable(keys) == [i \in 1..(Len(keys) - 1) |-> LCP(keys[i], keys[i + 1])]

PresentSeq(kv, ab) == SelectSeq([i \in 1..Len(kv) |-> i], LAMBDA i : kv[i] # ab)

RECURSIVE RangeMin(_, _, _)
RangeMin(lc, i, j) == IF i = j THEN lc[i] ELSE MinNat(lc[i], RangeMin(lc, i + 1, j))

\* the declarative definition: the set of branches, and the length of the part of a branch after its parent's child
Branches(keys, kv, ab) ==
    LET P == {i \in DOMAIN kv : kv[i] # ab}
    IN {SubSeq(keys[i], 1, LCP(keys[i], keys[j])) : <<i, j>> \in {x \in P \X P : x[1] < x[2]}}
NodePrefix(B, b) == Len(b) - MaxOf({0 - 1} \cup {Len(c) : c \in {d \in B : Len(d) < Len(b) /\ IsPre(d, b)}}) - 1
\* bytes a prefix takes: whole words, with a word for the length of a large one
PrefixBytes(n) == 8 * (IF n >= 255 THEN (n + 15) \div 8 ELSE (n + 7) \div 8)
ShapeDecl(keys, kv, ab, p) ==
    LET P  == {i \in DOMAIN kv : kv[i] # ab}
        B  == Branches(keys, kv, ab)
        Bp == {b \in B : IsPre(p, b)}
        N  == [b \in Bp |-> NodePrefix(B, b)]
        C  == [b \in Bp |-> Cardinality({keys[i][Len(b) + 1] : i \in {j \in P : IsPre(b, keys[j])}})]
    IN [nodes |-> Cardinality(Bp),
        withp |-> Cardinality({b \in Bp : N[b] > 0}),
        large |-> Cardinality({b \in Bp : N[b] >= 255}),
        total |-> FoldSet(LAMBDA b, acc : acc + N[b], 0, Bp),
        bytes |-> FoldSet(LAMBDA b, acc : acc + PrefixBytes(N[b]), 0, Bp),
        fans  |-> [n \in {C[b] : b \in Bp} |-> Cardinality({b \in Bp : C[b] = n})]]

(***************************************************************************)
(* The same by one pass over the gaps between neighbouring present keys,    *)
(* with a stack of open branches <<length, has prefix p, children>> (for    *)
(* traces with many keys; MapOpsTest.tla checks that both agree).           *)
(***************************************************************************)
RECURSIVE CloseBranches(_, _)
CloseBranches(s, g) ==
    IF s.stk = <<>> \/ s.stk[Len(s.stk)][1] <= g THEN s
    ELSE LET top  == s.stk[Len(s.stk)]
             rest == SubSeq(s.stk, 1, Len(s.stk) - 1)
             par  == MaxOf({g, IF rest = <<>> THEN 0 - 1 ELSE rest[Len(rest)][1]})
             n    == top[1] - par - 1
         IN CloseBranches(IF top[2]
                          THEN [stk |-> rest, nodes |-> s.nodes + 1, total |-> s.total + n, bytes |-> s.bytes + PrefixBytes(n),
                                fans |-> IF top[3] \in DOMAIN s.fans THEN [s.fans EXCEPT ![top[3]] = @ + 1] ELSE s.fans @@ (top[3] :> 1),
                                withp |-> s.withp + (IF n > 0 THEN 1 ELSE 0),
                                large |-> s.large + (IF n >= 255 THEN 1 ELSE 0)]
                          ELSE [s EXCEPT !.stk = rest], g)

ShapeOf(keys, lc, kv, ab, p) ==
    LET ps == PresentSeq(kv, ab)
        gap(s0, j) ==
            LET g == RangeMin(lc, ps[j], ps[j + 1] - 1)
                s == CloseBranches(s0, g)
            IN IF s.stk # <<>> /\ s.stk[Len(s.stk)][1] = g THEN [s EXCEPT !.stk[Len(s.stk)][3] = @ + 1]
               ELSE [s EXCEPT !.stk = Append(@, <<g, Len(p) <= g /\ IsPre(p, keys[ps[j]]), 2>>)]
        all == FoldLeft(gap, [stk |-> <<>>, nodes |-> 0, total |-> 0, bytes |-> 0, fans |-> <<>>, withp |-> 0, large |-> 0],
                        [j \in 1..(Len(ps) - 1) |-> j])
        end == CloseBranches(all, 0 - 1)
    IN [nodes |-> end.nodes, withp |-> end.withp, large |-> end.large, total |-> end.total, bytes |-> end.bytes, fans |-> end.fans]

(***************************************************************************)
(* Counting with prefix p answered leaves and the shape s (leaves, nodes,   *)
(* nodes with a prefix, large prefixes, sum of prefix lengths, bytes taken  *)
(* by prefixes, <<<<size, number of nodes of it>>, ...>>).  A node has as   *)
(* many slots as children up to 127, or 256 slots: the latter only if there *)
(* are (or were before some deletions) more than that, and it is given up   *)
(* when no more than 64 are left.                                           *)
(***************************************************************************)
SizesOK(fans, hist) ==
    LET h(n) == IF \E i \in 1..Len(hist) : hist[i][1] = n THEN hist[CHOOSE i \in 1..Len(hist) : hist[i][1] = n][2] ELSE 0
        f(n) == IF n \in DOMAIN fans THEN fans[n] ELSE 0
        sizes == DOMAIN fans \cup {hist[i][1] : i \in 1..Len(hist)} \cup {256}
        full == {n \in sizes : n > 64}
    IN /\ \A n \in sizes : CASE n <= 64 -> h(n) = f(n)
                               [] n > 64 /\ n < 128 -> h(n) <= f(n)
                               [] n >= 128 /\ n < 256 -> h(n) = 0
                               [] OTHER -> n = 256
       /\ h(256) = FoldSet(LAMBDA n, acc : acc + f(n) - (IF n = 256 THEN 0 ELSE h(n)), 0, full)

LeavesOK(keys, kv, ab, p, leaves) ==
    LET m == Matching(keys, kv, ab, p)
    IN IF m # <<>> THEN leaves = Len(m)
       ELSE leaves = 0 \/ (leaves = 1 /\ \E i \in DOMAIN kv : kv[i] # ab)

CountOK(keys, lc, kv, ab, p, s) ==
    LET x == ShapeOf(keys, lc, kv, ab, p)
    IN /\ LeavesOK(keys, kv, ab, p, s[1])
       /\ s[2] = x.nodes
       /\ s[3] = x.withp
       /\ s[4] = x.large
       /\ s[5] = x.total
       /\ s[6] = x.bytes
       /\ SizesOK(x.fans, s[7])

(***************************************************************************)
(* The whole tree: <<>> if there is nothing, <<byte, value, <<>>>> for a    *)
(* leaf, <<byte, ab, <<prefix, children>>>> for a node.  The byte of the    *)
(* root says nothing.  Keys lo..hi (positions in ps, the present ones)      *)
(* share their first d bytes.                                               *)
(***************************************************************************)
RECURSIVE KidOK(_, _, _, _, _, _, _, _, _)
KidOK(keys, ps, kv, ab, lo, hi, d, root, x) ==
    /\ Len(x) = 3
    /\ IF root THEN TRUE ELSE x[1] = keys[ps[lo]][d]
    /\ IF lo = hi THEN x[2] = kv[ps[lo]] /\ x[3] = <<>>
       ELSE /\ x[2] = ab /\ Len(x[3]) = 2
            /\ LET m == LCP(keys[ps[lo]], keys[ps[hi]])
                   kids == x[3][2]
                   firsts == SelectSeq([i \in 1..(hi - lo + 1) |-> lo + i - 1],
                                       LAMBDA i : i = lo \/ keys[ps[i]][m + 1] # keys[ps[i - 1]][m + 1])
               IN /\ x[3][1] = SubSeq(keys[ps[lo]], d + 1, m)
                  /\ Len(kids) = Len(firsts)
                  /\ \A j \in 1..Len(kids) :
                       KidOK(keys, ps, kv, ab, firsts[j], IF j = Len(kids) THEN hi ELSE firsts[j + 1] - 1, m + 1, FALSE, kids[j])
DumpOK(keys, kv, ab, x) ==
    LET ps == PresentSeq(kv, ab)
    IN IF ps = <<>> THEN x = <<>> ELSE KidOK(keys, ps, kv, ab, 1, Len(ps), 0, TRUE, x)
=============================================================================
