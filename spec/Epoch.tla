------------------------------- MODULE Epoch -------------------------------
(* Reuse of the memory of removed nodes.  The tree is a node A of three      *)
(* words, with a pointer to a node B of one word.  A change copies a node to other  *)
(* memory, links the copy, and gives the old one up.  Every allocator keeps  *)
(* what was given up through it, and when (the epoch), and takes from that   *)
(* what no one can still be reading: everything given up before the earliest *)
(* epoch someone has reserved.  Readers take no locks.                       *)
(*                                                                           *)
(* Every access to a shared word is one step.  Each word remembers by which  *)
(* copy it was written (id), so that a reader that gets to a word of another *)
(* copy than the one that was linked there is noticed.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Readers, Writers,
          Reads, Changes,   \* how many each of them makes
          Limit,            \* an epoch is over after so many nodes were given up through one allocator
          Cells,            \* how many words there are at most
          Variant

Threads == Readers \cup Writers
Inf == 1000
SizeOf(x) == IF x = "A" THEN 3 ELSE 1

VARIABLES mem,      \* words: [id, kid]
          link,     \* address of A
          next,     \* words never used begin here
          nid,      \* the next copy
          global, res, lock,
          list,     \* list[w]: sequence of [at, size, e]
          count,    \* nodes given up in this epoch
          th

vars == <<mem, link, next, nid, global, res, lock, list, count, th>>

Start(t) == [pc |-> "idle", left |-> IF t \in Readers THEN Reads ELSE Changes]
Init == /\ mem = [c \in 1..Cells |-> CASE c \in {1, 2, 3} -> [id |-> 1, kid |-> 4] [] c = 4 -> [id |-> 2, kid |-> 0] [] OTHER -> [id |-> 0, kid |-> 0]]
        /\ link = 1 /\ next = 5 /\ nid = 3
        /\ global = 0
        /\ res = [t \in Threads |-> Inf]
        /\ lock = 0
        /\ list = [w \in Writers |-> <<>>]
        /\ count = [w \in Writers |-> 0]
        /\ th = [t \in Threads |-> Start(t)]

Set(t, r) == th' = [th EXCEPT ![t] = r]
To(t, pc) == Set(t, [th[t] EXCEPT !.pc = pc])
At(t, pc) == th[t].pc = pc


(***************************************************************************)
(* Reservations.                                                            *)
(***************************************************************************)
LoadEpoch(t) ==
    /\ At(t, "idle") /\ th[t].left > 0
    /\ Set(t, [pc |-> IF t \in Readers /\ Variant \in {"reserved late", "not reserved"} THEN "link" ELSE "reserve", left |-> th[t].left - 1, e |-> global])
    /\ UNCHANGED (<<mem, link, next, nid, global, res, lock, list, count>>)
Reserve(t) ==
    /\ At(t, "reserve")
    /\ res' = [res EXCEPT ![t] = th[t].e]
    /\ To(t, IF t \in Writers THEN "lock" ELSE IF Variant = "reserved late" THEN "a1" ELSE "link")
    /\ UNCHANGED (<<mem, link, next, nid, global, lock, list, count>>)
End(t) ==
    /\ At(t, "end")
    /\ res' = [res EXCEPT ![t] = Inf]
    /\ Set(t, [pc |-> "idle", left |-> th[t].left])
    /\ UNCHANGED (<<mem, link, next, nid, global, lock, list, count>>)

(***************************************************************************)
(* Readers.                                                                 *)
(***************************************************************************)
ReadLink(t) ==
    /\ At(t, "link") /\ t \in Readers
    /\ Set(t, [th[t] EXCEPT !.pc = IF Variant = "reserved late" THEN "reserve" ELSE "a1"] @@ [a |-> link, ida |-> mem[link].id])
    /\ UNCHANGED (<<mem, link, next, nid, global, res, lock, list, count>>)
Word(t, c, id, ok) == IF mem[c].id = id THEN Set(t, ok) ELSE To(t, "bad")
ReadA1(t) ==
    /\ At(t, "a1")
    /\ Word(t, th[t].a, th[t].ida, [th[t] EXCEPT !.pc = "a2"])
    /\ UNCHANGED (<<mem, link, next, nid, global, res, lock, list, count>>)
ReadA2(t) ==
    /\ At(t, "a2")
    /\ LET c == th[t].a + 2 IN
       Word(t, c, th[t].ida, [th[t] EXCEPT !.pc = "b"] @@ [b |-> mem[c].kid, idb |-> mem[mem[c].kid].id])
    /\ res' = IF Variant = "ended early" THEN [res EXCEPT ![t] = Inf] ELSE res
    /\ UNCHANGED (<<mem, link, next, nid, global, lock, list, count>>)
ReadB(t) ==
    /\ At(t, "b")
    /\ Word(t, th[t].b, th[t].idb, [th[t] EXCEPT !.pc = "end"])
    /\ UNCHANGED (<<mem, link, next, nid, global, res, lock, list, count>>)

(***************************************************************************)
(* Writers.                                                                 *)
(***************************************************************************)
Lock(w) ==
    /\ At(w, "lock") /\ lock = 0
    /\ lock' = w
    /\ \E x \in {"A", "B"} :
         Set(w, [th[w] EXCEPT !.pc = "scan"] @@ [x |-> x, old |-> IF x = "A" THEN link ELSE mem[link + 2].kid, todo |-> Threads, min |-> Inf])
    /\ UNCHANGED (<<mem, link, next, nid, global, res, list, count>>)
\* the reservations are looked at one after another
Scan(w) ==
    /\ At(w, "scan")
    /\ LET r == th[w]
           u == CHOOSE u \in r.todo : \A v \in r.todo : u <= v
       IN IF r.todo = {} THEN To(w, "alloc")
          ELSE Set(w, [r EXCEPT !.todo = @ \ {u}, !.min = IF res[u] < @ THEN res[u] ELSE @])
    /\ UNCHANGED (<<mem, link, next, nid, global, res, lock, list, count>>)

Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Usable(w, i) == LET it == list[w][i] IN
    /\ it.size >= SizeOf(th[w].x) /\ it.size # SizeOf(th[w].x) + 1   \* nothing could be done with the rest
    /\ it.e < th[w].min \/ (Variant = "reused in the same epoch" /\ it.e = th[w].min)
Alloc(w) ==
    /\ At(w, "alloc")
    /\ LET r == th[w]
           need == SizeOf(r.x)
           can == {i \in DOMAIN list[w] : Usable(w, i)}
           fit == {i \in can : \A j \in can : list[w][i].size < list[w][j].size \/ (list[w][i].size = list[w][j].size /\ i <= j)}
       IN IF fit = {}
          THEN /\ next + need - 1 <= Cells
               /\ Set(w, [r EXCEPT !.pc = "fill"] @@ [new |-> next, id |-> nid])
               /\ next' = next + need
               /\ UNCHANGED list
          ELSE \E i \in fit :   \* the smallest, the first of these
               LET it == list[w][i]
                   rest == it.size - need
                   part == [at |-> it.at + need, size |-> rest, e |-> it.e]
               IN /\ list' = [list EXCEPT ![w] = Without(@, i) \o (IF rest > 0 THEN <<part>> ELSE <<>>)]
                  /\ Set(w, [r EXCEPT !.pc = "fill"] @@ [new |-> it.at, id |-> nid])
                  /\ UNCHANGED next
    /\ nid' = nid + 1
    /\ UNCHANGED (<<mem, link, global, res, lock, count>>)
Fill(w) ==
    /\ At(w, "fill")
    /\ LET r == th[w] IN
       IF r.x = "B" THEN mem' = [mem EXCEPT ![r.new] = [id |-> r.id, kid |-> 0]]
       ELSE mem' = [mem EXCEPT ![r.new] = [id |-> r.id, kid |-> mem[r.old].kid], ![r.new + 1] = [id |-> r.id, kid |-> 0],
                                            ![r.new + 2] = [id |-> r.id, kid |-> mem[r.old + 2].kid]]
    /\ To(w, IF Variant = "epoch before the end" THEN "give" ELSE "put")
    /\ UNCHANGED (<<link, next, nid, global, res, lock, list, count>>)
Put(w) ==
    /\ At(w, "put")
    /\ LET r == th[w] IN
       IF r.x = "A" THEN link' = r.new /\ UNCHANGED mem
       ELSE mem' = [mem EXCEPT ![link + 2].kid = r.new] /\ UNCHANGED link
    /\ lock' = 0
    /\ To(w, IF Variant = "epoch before the end" THEN "append" ELSE "give")
    /\ UNCHANGED (<<next, nid, global, res, list, count>>)
Give(w) ==
    /\ At(w, "give")
    /\ Set(w, [th[w] EXCEPT !.pc = IF Variant = "epoch before the end" THEN "put" ELSE "append", !.e = global])
    /\ UNCHANGED (<<mem, link, next, nid, global, res, lock, list, count>>)
Append1(w) ==
    /\ At(w, "append")
    /\ list' = [list EXCEPT ![w] = Append(@, [at |-> th[w].old, size |-> SizeOf(th[w].x), e |-> th[w].e])]
    /\ IF count[w] + 1 >= Limit /\ Variant # "epochs never end"
       THEN global' = global + 1 /\ count' = [count EXCEPT ![w] = 0]
       ELSE UNCHANGED global /\ count' = [count EXCEPT ![w] = @ + 1]
    /\ To(w, "end")
    /\ UNCHANGED (<<mem, link, next, nid, res, lock>>)

Step(t) == \/ LoadEpoch(t) \/ Reserve(t) \/ End(t)
           \/ t \in Readers /\ (ReadLink(t) \/ ReadA1(t) \/ ReadA2(t) \/ ReadB(t))
           \/ t \in Writers /\ (Lock(t) \/ Scan(t) \/ Alloc(t) \/ Fill(t) \/ Put(t) \/ Give(t) \/ Append1(t))
AllDone == \A t \in Threads : th[t].pc = "idle" /\ th[t].left = 0
Next == (\E t \in Threads : Step(t)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

\* copies are compared only: their numbers do not matter
IdsInUse == {mem[c].id : c \in 1..Cells}
View == <<[c \in 1..Cells |-> <<{d \in 1..Cells : mem[d].id = mem[c].id}, mem[c].kid>>], link, next, global, res, lock, list, count,
          [t \in Threads |-> <<th[t], IF "ida" \in DOMAIN th[t] THEN mem[th[t].a].id = th[t].ida ELSE TRUE>>]>>

(***************************************************************************)
(* Properties.                                                              *)
(***************************************************************************)
\* no reader gets to a word that is part of something else by now
ReadersOK == \A t \in Threads : th[t].pc # "bad"
\* what is linked was not given up, and no word was given up twice
Spans(w) == {<<list[w][y[1]].at + y[2], w, y[1]>> : y \in {x \in (DOMAIN list[w]) \X (0..2) : x[2] < list[w][x[1]].size}}
Given == UNION {Spans(w) : w \in Writers}
Live == {link, link + 1, link + 2, mem[link + 2].kid}
ListsOK == /\ \A x \in Given, y \in Given : x[1] = y[1] => x = y
           /\ {x[1] : x \in Given} \cap Live = {}
\* the words in use, given up, and about to be one of these, are all there are
NoLoss == AllDone => {x[1] : x \in Given} \cup Live = 1..(next - 1)
\* with one writer and no readers: what is given up comes back
Bounded == Readers = {} /\ Cardinality(Writers) = 1 => next <= 5 + 4 * (Limit + 1)
=============================================================================
