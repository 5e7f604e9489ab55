------------------------------ MODULE ConcART ------------------------------
(* The concurrent algorithms of the tree: updates and deletes are prepared   *)
(* by searching without locks, locking the nodes to be changed given that    *)
(* their generations have not changed since they were entered, and finalized *)
(* by a copy that replaces a node, or by changing one word of it.  Lookups   *)
(* take no locks.                                                            *)
(*                                                                           *)
(* One step is one atomic operation of the code on a shared word (a slot of  *)
(* a node, the root, a generation), except that reading a node's prefix,     *)
(* finding the slot of a byte and filling a new, not yet reachable node are  *)
(* one step each.  Nodes given up are not reused here (see Epoch).           *)
(*                                                                           *)
(* The map kv changes at the step in which a change becomes visible.  TLC    *)
(* checks in every state that the tree contains exactly kv and is well       *)
(* formed, that what a prepared operation showed is still true while it is   *)
(* held, and that each lookup answers what was true during it.               *)
EXTENDS Bytes, Integers, SequencesExt, FiniteSetsExt, TLC

CONSTANTS Keys,        \* a sorted sequence of keys, no one a prefix of another
          Inits,       \* a set of sets of key numbers: the initial contents
          Todo,        \* Todo[t]: set of sequences of operations <<"put" | "del" | "get", key number>> of thread t
          FullFrom, ShrinkAt,
          NLocks,      \* nodes share locks
          Variant,     \* "" or the name of a missing safeguard
          Scenes       \* print the scenes that lead to each kind of conflict

Threads == DOMAIN Todo
N == Len(Keys)
Ab == 0
Val(k, t) == 10 * k + t
Own(v) == v \div 10

From(s, i) == SubSeq(s, i, Len(s))
Nil == [t |-> "n", b |-> 0, x |-> 0]
Leaf(b, v) == [t |-> "l", b |-> b, x |-> v]
Ptr(b, a) == [t |-> "p", b |-> b, x |-> a]

VARIABLES root,     \* a word
          rootLock,
          heap,     \* a sequence of nodes [pre, full, kids]; kids is a function from bytes to words
          gen,      \* generations of the locks
          th,       \* the threads
          kv,
          scene     \* how it began: initial content and operations (no part of the state proper)

vars == <<root, rootLock, heap, gen, th, kv, scene>>
View == <<root, rootLock, heap, gen, th, kv>>

LockOf(a) == (a % NLocks) + 1
Count(n) == Cardinality({b \in DOMAIN n.kids : n.kids[b] # Nil})
Alphabet == UNION {{Keys[i][j] : j \in 1..Len(Keys[i])} : i \in 1..N}
Sparse(f) == [b \in {c \in DOMAIN f : f[c] # Nil} |-> f[b]]
Dense(f) == [b \in Alphabet |-> IF b \in DOMAIN f THEN f[b] ELSE Nil]
MkNode(pre, full, kids) == [pre |-> pre, full |-> full, kids |-> IF full THEN Dense(kids) ELSE Sparse(kids)]

(***************************************************************************)
(* The tree of a set of keys.                                               *)
(***************************************************************************)
RECURSIVE Build(_, _, _, _)
Build(S, d, b, h) ==   \* <<word, heap>>
    IF Cardinality(S) = 1 THEN LET i == CHOOSE x \in S : TRUE IN <<Leaf(IF b = 0 THEN Keys[i][1] ELSE b, Val(i, 0)), h>>
    ELSE LET lo == MinOf(S)
             hi == MaxOf(S)
             m  == LCP(Keys[lo], Keys[hi])
             bs == {Keys[i][m + 1] : i \in S}
             step(acc, c) == LET r == Build({i \in S : Keys[i][m + 1] = c}, m + 1, c, acc[2])
                             IN <<acc[1] @@ (c :> r[1]), r[2]>>
             all == FoldSet(LAMBDA c, acc : step(acc, c), <<<<>>, h>>, bs)
             node == MkNode(SubSeq(Keys[lo], d + 1, m), Cardinality(bs) >= FullFrom, all[1])
         IN <<Ptr(b, Len(all[2]) + 1), Append(all[2], node)>>

Idle == [pc |-> "idle", op |-> "", k |-> 0]

Init == \E S \in Inits :
        LET r == IF S = {} THEN <<Nil, <<>>>> ELSE Build(S, 0, 0, <<>>)
        IN \E todo \in [Threads -> UNION {Todo[t] : t \in Threads}] :
            /\ \A t \in Threads : todo[t] \in Todo[t]
            /\ root = r[1] /\ heap = r[2]
            /\ rootLock = 0
            /\ gen = [l \in 1..NLocks |-> 0]
            /\ kv = [i \in 1..N |-> IF i \in S THEN Val(i, 0) ELSE Ab]
            /\ th = [t \in Threads |-> [Idle EXCEPT !.pc = "idle"] @@ [todo |-> todo[t]]]
            /\ scene = <<S, todo>>

(***************************************************************************)
(* Where a word is: <<0, 0>> is the root, <<a, b>> the slot of byte b in    *)
(* node a.                                                                  *)
(***************************************************************************)
Root == <<0, 0>>
At(l) == IF l = Root THEN root ELSE IF l[2] \in DOMAIN heap[l[1]].kids THEN heap[l[1]].kids[l[2]] ELSE Nil
Put(l, w, h) == /\ root' = IF l = Root THEN w ELSE root
                /\ heap' = IF l = Root THEN h ELSE [h EXCEPT ![l[1]].kids[l[2]] = w]

Set(t, r) == th' = [th EXCEPT ![t] = r]
Go(t, pc) == Set(t, [th[t] EXCEPT !.pc = pc])
Key(t) == Keys[th[t].k]

(***************************************************************************)
(* Beginning and ending operations.                                         *)
(***************************************************************************)
Begin(t) ==
    LET o == Head(th[t].todo) IN
    /\ th[t].pc = "idle" /\ th[t].todo # <<>>
    /\ Set(t, [pc |-> "root", op |-> o[1], k |-> o[2], todo |-> Tail(th[t].todo), loc |-> Root, raw |-> Nil, node |-> 0, ng |-> 0,
               par |-> 0, pg |-> 0, d |-> 0, w |-> Nil, oth |-> Nil, cg |-> 0, kind |-> "", locks |-> <<>>, li |-> 1, shown |-> Nil, new |-> Nil,
               seen |-> {kv[o[2]]}, cand |-> {kv[i] : i \in 1..N} \ {Ab}, bad |-> FALSE])
    /\ UNCHANGED <<root, rootLock, heap, gen, kv>>

Finish(t, bad) == Set(t, Idle @@ [todo |-> th[t].todo, bad |-> bad])

\* what a lookup (or a prepare that found nothing) may answer
AnswerOK(r, w) ==
    IF w = Nil THEN Ab \in r.seen
    ELSE IF Own(w.x) = r.k THEN w.x \in r.seen
    ELSE Ab \in r.seen /\ w.x \in r.cand

NotFound(t) == Finish(t, ~AnswerOK(th[t], Nil)) /\ UNCHANGED <<root, rootLock, heap, gen, kv>>

(***************************************************************************)
(* Lookups.                                                                 *)
(***************************************************************************)
GetRoot(t) ==
    /\ th[t].pc = "root" /\ th[t].op = "get"
    /\ CASE root = Nil -> Finish(t, ~AnswerOK(th[t], Nil))
         [] root.t = "l" -> Finish(t, ~AnswerOK(th[t], IF root.b = Key(t)[1] THEN root ELSE Nil))
         [] OTHER -> Set(t, [th[t] EXCEPT !.pc = "step", !.node = root.x])
    /\ UNCHANGED <<root, rootLock, heap, gen, kv>>
GetStep(t) ==
    /\ th[t].pc = "step"
    /\ LET n  == heap[th[t].node]
           d2 == th[t].d + Len(n.pre)
           w  == IF d2 >= Len(Key(t)) THEN Nil ELSE At(<<th[t].node, Key(t)[d2 + 1]>>)
       IN IF w = Nil \/ w.t = "l" THEN Finish(t, ~AnswerOK(th[t], w))
          ELSE Set(t, [th[t] EXCEPT !.node = w.x, !.d = d2 + 1])
    /\ UNCHANGED <<root, rootLock, heap, gen, kv>>

(***************************************************************************)
(* Preparing.                                                               *)
(***************************************************************************)
Restart(t) == [th[t] EXCEPT !.pc = "root", !.d = 0, !.par = 0, !.li = 1, !.locks = <<>>]

ReadRoot(t) ==
    /\ th[t].pc = "root" /\ th[t].op # "get"
    /\ CASE root = Nil /\ th[t].op = "del" -> Finish(t, ~AnswerOK(th[t], Nil))
         [] root.t = "l" /\ th[t].op = "del" /\ root.b # Key(t)[1] -> Finish(t, ~AnswerOK(th[t], Nil))
         [] root.t = "p" -> Set(t, [Restart(t) EXCEPT !.pc = "gen", !.loc = Root, !.raw = root])
         [] OTHER -> Set(t, [Restart(t) EXCEPT !.pc = "lockroot", !.raw = root])
    /\ UNCHANGED <<root, rootLock, heap, gen, kv>>

LockRoot(t) ==
    /\ th[t].pc = "lockroot"
    /\ IF rootLock = 0 THEN rootLock' = 1 /\ Go(t, "checkroot") ELSE Go(t, "root") /\ UNCHANGED rootLock
    /\ UNCHANGED <<root, heap, gen, kv>>
CheckRoot(t) ==
    /\ th[t].pc = "checkroot"
    /\ IF root # th[t].raw /\ Variant # "root not checked"
       THEN rootLock' = 0 /\ Go(t, "root")
       ELSE /\ UNCHANGED rootLock
            /\ LET r == th[t]
                   same == r.raw # Nil /\ r.raw.b = Key(t)[1]
               IN Set(t, [r EXCEPT !.pc = "held", !.loc = Root,
                                   !.shown = IF same THEN r.raw ELSE Nil,
                                   !.kind = CASE r.op = "del" -> "deleteRoot"
                                              [] r.raw = Nil -> "replaceEmptyRootWithLeaf"
                                              [] same -> "rootLeafUpdate"
                                              [] OTHER -> "replaceLeafRootWithNode"])
    /\ UNCHANGED <<root, heap, gen, kv>>

\* the generation is read before the pointer is verified
ReadGen(t) ==
    /\ th[t].pc = "gen"
    /\ Set(t, [th[t] EXCEPT !.pc = IF Variant = "pointer not verified" THEN "parent" ELSE "verify", !.node = th[t].raw.x, !.ng = gen[LockOf(th[t].raw.x)]])
    /\ UNCHANGED <<root, rootLock, heap, gen, kv>>
Verify(t) ==
    /\ th[t].pc = "verify"
    /\ IF At(th[t].loc) = th[t].raw THEN Go(t, "parent") ELSE Set(t, Restart(t))
    /\ UNCHANGED <<root, rootLock, heap, gen, kv>>
VerifyParent(t) ==
    /\ th[t].pc = "parent"
    /\ IF th[t].par = 0 \/ gen[LockOf(th[t].par)] = th[t].pg \/ Variant = "parent not verified" THEN Go(t, "look") ELSE Set(t, Restart(t))
    /\ UNCHANGED <<root, rootLock, heap, gen, kv>>

\* lock the node and its parent
Lock2(r) == IF r.par = 0 \/ Variant = "parent not locked" THEN <<<<r.node, r.ng>>>> ELSE <<<<r.node, r.ng>>, <<r.par, r.pg>>>>
ToLock(r, kind, shown) == [r EXCEPT !.pc = "lock", !.kind = kind, !.shown = shown, !.locks = Lock2(r), !.li = 1]

Look(t) ==
    /\ th[t].pc = "look"
    /\ LET r  == th[t]
           n  == heap[r.node]
           m  == LCP(n.pre, From(Key(t), r.d + 1))
           d2 == r.d + Len(n.pre)
           b  == Key(t)[d2 + 1]
           w  == At(<<r.node, b>>)
           q  == [r EXCEPT !.d = d2, !.w = w]
       IN CASE r.op = "put" /\ m < Len(n.pre) -> Set(t, [ToLock(r, "nodePrefixMiss", Nil) EXCEPT !.li = 1])
            [] r.op = "put" /\ m = Len(n.pre) /\ w = Nil -> Set(t, ToLock(q, IF n.full THEN "nodeLeafInsert256" ELSE "nodeLeafInsert", Nil))
            [] r.op = "put" /\ m = Len(n.pre) /\ w.t = "l" -> Set(t, ToLock(q, "nodeLeafUpdate", w))
            [] r.op = "del" /\ (d2 >= Len(Key(t)) \/ w = Nil) -> Finish(t, ~AnswerOK(r, Nil))
            [] r.op = "del" /\ d2 < Len(Key(t)) /\ w.t = "l" ->
                 Set(t, IF n.full THEN (IF Variant = "delete256 not locked" THEN [q EXCEPT !.pc = "held", !.kind = "deleteLeaf256", !.shown = w, !.locks = <<>>]
                                        ELSE ToLock(q, "deleteLeaf256", w))
                        ELSE IF Count(n) > 2 THEN ToLock(q, "deleteLeaf", w)
                        ELSE [q EXCEPT !.pc = "other"])
            [] OTHER -> Set(t, [q EXCEPT !.pc = "gen", !.par = r.node, !.pg = r.ng, !.loc = <<r.node, b>>, !.raw = w, !.d = d2 + 1])
    /\ UNCHANGED <<root, rootLock, heap, gen, kv>>

\* the other child of a node with two
OtherLoc(r) == LET n == heap[r.node] IN <<r.node, CHOOSE c \in DOMAIN n.kids : c # Keys[r.k][r.d + 1]>>
Other(t) ==
    /\ th[t].pc = "other"
    /\ LET r == th[t]
           o == At(OtherLoc(r))
       IN Set(t, IF o.t = "l" THEN [ToLock(r, "replaceNodeWithLeaf", r.w) EXCEPT !.oth = o]
                 ELSE [r EXCEPT !.pc = "childgen", !.oth = o])
    /\ UNCHANGED <<root, rootLock, heap, gen, kv>>
ChildGen(t) ==
    /\ th[t].pc = "childgen"
    /\ Set(t, [th[t] EXCEPT !.pc = "childverify", !.cg = gen[LockOf(th[t].oth.x)]])
    /\ UNCHANGED <<root, rootLock, heap, gen, kv>>
ChildVerify(t) ==
    /\ th[t].pc = "childverify"
    /\ LET r == th[t] IN
       IF At(OtherLoc(r)) # r.oth /\ Variant # "child not verified" THEN Set(t, Restart(t))
       ELSE Set(t, [ToLock(r, "replaceNodeWithNode", r.w) EXCEPT !.locks = IF Variant = "child not locked" THEN @ ELSE <<<<r.oth.x, r.cg>>>> \o @])
    /\ UNCHANGED <<root, rootLock, heap, gen, kv>>

LockSet(r, n) == {LockOf(r.locks[i][1]) : i \in 1..n}
Lock(t) ==
    /\ th[t].pc = "lock"
    /\ LET r == th[t]
           l == LockOf(r.locks[r.li][1])
           g == r.locks[r.li][2]
           next == [r EXCEPT !.li = @ + 1, !.pc = IF r.li = Len(r.locks) THEN "held" ELSE "lock"]
       IN IF r.li = 1 /\ \E i \in 1..Len(r.locks) : r.locks[i][2] % 2 = 1
          THEN Set(t, Restart(t)) /\ UNCHANGED gen
          ELSE IF l \in LockSet(r, r.li - 1)
          THEN \* shared with one that is locked already
               IF g = r.locks[CHOOSE i \in 1..(r.li - 1) : LockOf(r.locks[i][1]) = l][2] \/ Variant = "shared lock not compared"
               THEN Set(t, next) /\ UNCHANGED gen
               ELSE Set(t, Restart(t)) /\ gen' = [x \in DOMAIN gen |-> IF x \in LockSet(r, r.li - 1) THEN gen[x] - 1 ELSE gen[x]]
          ELSE IF gen[l] = g \/ (Variant = "generation not compared" /\ gen[l] % 2 = 0)
               THEN Set(t, next) /\ gen' = [gen EXCEPT ![l] = @ + 1]
               ELSE /\ Set(t, Restart(t))
                    /\ gen' = [x \in DOMAIN gen |-> IF x \in LockSet(r, r.li - 1) /\ Variant # "failed lock not undone" THEN gen[x] - 1 ELSE gen[x]]
    /\ UNCHANGED <<root, rootLock, heap, kv>>

(***************************************************************************)
(* Prepared: the caller gets the key of the shown leaf, and finalizes or    *)
(* aborts.                                                                  *)
(***************************************************************************)
IsRootKind(r) == r.kind \in {"deleteRoot", "replaceEmptyRootWithLeaf", "rootLeafUpdate", "replaceLeafRootWithNode"}
Match(r) == r.shown # Nil /\ Own(r.shown.x) = r.k

Held(t) ==
    /\ th[t].pc = "held"
    /\ LET r == th[t] IN
       \/ /\ r.op = "put" \/ Match(r)
          /\ Go(t, "copy")
       \/ Set(t, [r EXCEPT !.pc = "unlock", !.bad = r.shown # Nil /\ ~AnswerOK(r, r.shown)])
    /\ UNCHANGED <<root, rootLock, heap, gen, kv>>

\* the new nodes, filled before they are reachable: [h |-> heap, w |-> new word]
Two(pre, b1, w1, b2, w2) == MkNode(pre, FALSE, (b1 :> [w1 EXCEPT !.b = b1]) @@ (b2 :> [w2 EXCEPT !.b = b2]))
Copy(t) ==
    LET r   == th[t]
        key == Key(t)
        v   == Val(r.k, t)
        A   == Len(heap) + 1
        fk  == Keys[Own(r.shown.x)]
        one(n, b) == [h |-> Append(heap, n), w |-> Ptr(b, A)]
        none(w) == [h |-> heap, w |-> w]
    IN CASE r.kind = "replaceEmptyRootWithLeaf" -> none(Leaf(key[1], v))
         [] r.kind = "deleteRoot" -> none(Nil)
         [] r.kind = "replaceLeafRootWithNode" -> one(Two(<<>>, key[1], Leaf(0, v), r.raw.b, r.raw), 0)
         [] r.kind = "rootLeafUpdate" ->
              IF Match(r) THEN none(Leaf(r.raw.b, v))
              ELSE LET m == LCP(key, fk) IN one(Two(SubSeq(key, 1, m), key[m + 1], Leaf(0, v), fk[m + 1], r.raw), 0)
         [] r.kind = "nodePrefixMiss" ->
              LET n == heap[r.node]
                  m == LCP(n.pre, From(key, r.d + 1))
                  low == [n EXCEPT !.pre = From(n.pre, m + 2)]
                  b == key[r.d + m + 1]
              IN [h |-> heap \o <<low, Two(SubSeq(n.pre, 1, m), b, Leaf(0, v), n.pre[m + 1], Ptr(0, A))>>, w |-> Ptr(r.raw.b, A + 1)]
         [] r.kind = "nodeLeafInsert256" -> none(Leaf(key[r.d + 1], v))
         [] r.kind = "nodeLeafInsert" ->
              LET n == heap[r.node]
                  kids == n.kids @@ (key[r.d + 1] :> Leaf(key[r.d + 1], v))
              IN one(MkNode(n.pre, Cardinality(DOMAIN kids) >= FullFrom, kids), r.raw.b)
         [] r.kind = "nodeLeafUpdate" ->
              IF Match(r) THEN none(Leaf(r.shown.b, v))
              ELSE LET m == LCP(From(key, r.d + 2), From(fk, r.d + 2))
                   IN one(Two(SubSeq(key, r.d + 2, r.d + 1 + m), key[r.d + 2 + m], Leaf(0, v), fk[r.d + 2 + m], r.shown), r.shown.b)
         [] r.kind = "deleteLeaf" ->
              LET n == heap[r.node]
              IN one(MkNode(n.pre, FALSE, [b \in DOMAIN n.kids \ {key[r.d + 1]} |-> n.kids[b]]), r.raw.b)
         [] r.kind = "deleteLeaf256" ->
              LET n == heap[r.node]
                  rest == [n.kids EXCEPT ![key[r.d + 1]] = Nil]
                  left == Cardinality({b \in DOMAIN rest : rest[b] # Nil})
              IN IF left > ShrinkAt THEN none(Nil) ELSE one(MkNode(n.pre, FALSE, rest), r.raw.b)
         [] r.kind = "replaceNodeWithLeaf" ->
              LET n == heap[r.node]
              IN none([r.oth EXCEPT !.b = IF r.loc = Root THEN (IF n.pre # <<>> THEN key[1] ELSE @) ELSE r.raw.b])
         [] OTHER -> \* replaceNodeWithNode
              LET n == heap[r.node]
                  c == heap[r.oth.x]
              IN one([c EXCEPT !.pre = n.pre \o <<r.oth.b>> \o c.pre], r.raw.b)
DoCopy(t) ==
    /\ th[t].pc = "copy"
    /\ LET c == Copy(t) IN heap' = c.h /\ Set(t, [th[t] EXCEPT !.pc = "write", !.new = c.w])
    /\ UNCHANGED <<root, rootLock, gen, kv>>

\* a change takes effect: others that are pending see it
Effect(t, h, l, w) ==
    LET r == th[t]
        v == IF r.op = "del" THEN Ab ELSE Val(r.k, t)
        c == [kv EXCEPT ![r.k] = v]
    IN /\ kv' = c
       /\ Put(l, w, h)
       /\ th' = [u \in Threads |->
            IF u = t THEN [r EXCEPT !.pc = "unlock"]
            ELSE LET q == th[u] IN
                 IF q.pc = "idle" THEN q
                 ELSE [q EXCEPT !.seen = IF q.k = r.k THEN @ \cup {v} ELSE @,
                                !.cand = @ \cup ({v} \ {Ab})]]

CasKinds == {"replaceEmptyRootWithLeaf", "replaceLeafRootWithNode", "rootLeafUpdate", "nodeLeafInsert256", "nodeLeafUpdate"}
WhereTo(t) ==
    LET r == th[t] IN
    IF r.kind \in {"nodeLeafInsert256", "nodeLeafUpdate"} \/ (r.kind = "deleteLeaf256" /\ r.new = Nil) THEN <<r.node, Key(t)[r.d + 1]>> ELSE r.loc
Write(t) ==
    /\ th[t].pc = "write"
    /\ LET r   == th[t]
           loc == WhereTo(t)
           cas == r.kind \in CasKinds
           old == IF r.kind \in {"nodeLeafInsert256", "nodeLeafUpdate"} THEN r.shown ELSE r.raw
       IN IF cas /\ At(loc) # old
          THEN Go(t, "unlock") /\ UNCHANGED <<root, heap, kv>>
          ELSE Effect(t, heap, loc, r.new)
    /\ UNCHANGED <<rootLock, gen>>

Unlock(t) ==
    /\ th[t].pc = "unlock"
    /\ LET r == th[t] IN
       /\ IF IsRootKind(r) THEN rootLock' = 0 /\ UNCHANGED gen
          ELSE /\ UNCHANGED rootLock
               /\ gen' = [x \in DOMAIN gen |-> IF x \in LockSet(r, Len(r.locks)) THEN gen[x] + 1 ELSE gen[x]]
       /\ Finish(t, r.bad)
    /\ UNCHANGED <<root, heap, kv>>

Step(t) == /\ \/ Begin(t) \/ GetRoot(t) \/ GetStep(t) \/ ReadRoot(t) \/ LockRoot(t) \/ CheckRoot(t) \/ ReadGen(t) \/ Verify(t)
              \/ VerifyParent(t) \/ Look(t) \/ Other(t) \/ ChildGen(t) \/ ChildVerify(t) \/ Lock(t) \/ Held(t) \/ DoCopy(t) \/ Write(t) \/ Unlock(t)
           /\ UNCHANGED scene
AllDone == \A t \in Threads : th[t].pc = "idle" /\ th[t].todo = <<>>
Next == (\E t \in Threads : Step(t)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A t \in Threads : WF_vars(Step(t))

(***************************************************************************)
(* Properties.                                                              *)
(***************************************************************************)
RECURSIVE Leaves(_)
Leaves(w) == IF w = Nil THEN {} ELSE IF w.t = "l" THEN {w.x} ELSE UNION {Leaves(heap[w.x].kids[b]) : b \in DOMAIN heap[w.x].kids}
\* with the path to it: a leaf is where a search for its key ends
RECURSIVE Find(_, _, _)
Find(w, key, d) == IF w = Nil \/ w.t = "l" THEN w
                   ELSE LET n == heap[w.x]
                            d2 == d + Len(n.pre)
                        IN IF d2 >= Len(key) \/ key[d2 + 1] \notin DOMAIN n.kids THEN Nil ELSE Find(n.kids[key[d2 + 1]], key, d2 + 1)
ContentOK == /\ Leaves(root) = {kv[i] : i \in 1..N} \ {Ab}
             /\ \A i \in 1..N : kv[i] # Ab => Find(root, Keys[i], 0).x = kv[i]
RECURSIVE Formed(_)
Formed(w) == w = Nil \/ w.t = "l" \/
    LET n == heap[w.x] IN
    /\ Count(n) >= 2
    /\ IF n.full THEN Count(n) > ShrinkAt ELSE Count(n) < FullFrom
    /\ \A b \in DOMAIN n.kids : n.kids[b] # Nil => n.kids[b].b = b /\ Formed(n.kids[b])
ShapeOK == Formed(root)

ShownVal(r) == IF Match(r) THEN r.shown.x ELSE Ab
HeldOK == \A t \in Threads : th[t].pc \in {"held", "copy", "write"} => kv[th[t].k] = ShownVal(th[t])
AnswersOK == \A t \in Threads : th[t].pc = "idle" /\ "bad" \in DOMAIN th[t] => ~th[t].bad

Holding == UNION {IF th[t].pc \in {"held", "copy", "write", "unlock"} /\ ~IsRootKind(th[t]) THEN LockSet(th[t], Len(th[t].locks))
                  ELSE IF th[t].pc = "lock" THEN LockSet(th[t], th[t].li - 1) ELSE {} : t \in Threads}
LocksOK == /\ \A l \in DOMAIN gen : (gen[l] % 2 = 1) = (l \in Holding)
           /\ (rootLock = 1) = (\E t \in Threads : th[t].pc = "checkroot" \/ (th[t].pc \in {"held", "copy", "write", "unlock"} /\ IsRootKind(th[t])))

\* what is prepared is not refused: whoever could stand in the way was found out before
RefusedOK == \A t \in Threads : th[t].pc = "write" => LET r == th[t] IN At(WhereTo(t)) = (IF r.kind \in {"nodeLeafInsert256", "nodeLeafUpdate"} THEN r.shown ELSE r.raw)
                                                                          \/ r.kind \notin CasKinds

Termination == <>AllDone

(***************************************************************************)
(* Scenes for the real code: what a thread was about to do, and how it was  *)
(* disturbed by another.                                                    *)
(***************************************************************************)
ASSUME TLCSet(1, {})
Kind(r) == IF r.pc = "idle" THEN <<>> ELSE <<r.op, r.pc, IF r.pc \in {"lock", "held", "copy", "write", "unlock"} THEN r.kind ELSE "",
                                             IF r.pc \in {"idle", "root"} THEN "" ELSE IF r.loc = Root THEN "top" ELSE "deep">>
Rel(a, b) == IF a.pc = "idle" \/ b.pc = "idle" THEN "" ELSE IF a.node = b.node THEN "same" ELSE IF a.node = b.par THEN "parent" ELSE IF b.node = a.par THEN "child" ELSE ""
Moved == {t \in Threads : th'[t] # th[t]}
Size(a) == IF a = 0 THEN <<>> ELSE <<heap[a].full, Count(heap[a]), heap[a].pre # <<>>>>
Around(r) == IF r.pc \in {"idle", "root"} THEN <<>> ELSE <<Size(r.node), Size(r.par)>>
Class(t) == <<Kind(th[t]), Around(th[t]), th'[t].pc, {<<Kind(th[u]), Rel(th[t], th[u])>> : u \in Threads \ {t}}>>
Interesting(t) == \/ th[t].pc \in {"verify", "parent", "lock", "lockroot", "checkroot", "childverify"} /\ th'[t].pc = "root"
                  \/ th[t].pc = "write" /\ \E u \in Threads \ {t} : th[u].pc # "idle"
Emit(c) == IF c \in TLCGet(1) THEN TRUE ELSE TLCSet(1, TLCGet(1) \cup {c}) /\ PrintT(<<"SCENE", scene>>)
Cover == Scenes => \A t \in Moved : Interesting(t) => Emit(Class(t))
=============================================================================
