------------------------------ MODULE Persist ------------------------------
(* Blocks, allocators and saved states.  Memory comes in blocks of B words,  *)
(* made by a goroutine that always has the next one ready.  An allocator     *)
(* fills its block word by word; words given up go to its list.  Items have  *)
(* one word each.                                                            *)
(*                                                                           *)
(* A state is saved while no allocator is in use, but the goroutine may be   *)
(* anywhere, and goes on.  It is written as a sequence of records.  Loading  *)
(* a state makes a tree that goes on like the one saved.  Loading the first  *)
(* part of a state must fail.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS B,          \* words of a block
          NA,         \* allocators
          Keys, Changes, Loads,
          Variant

Als == 1..NA
None == -1
Word == Keys \cup {0}

VARIABLES blocks,     \* a sequence (from 0) of contents
          nfb,        \* the number of blocks the goroutine has counted
          gpc, gnext, \* the goroutine
          al, root,   \* root[k]: the address of item k, or None
          objects,    \* items counted, but those only an allocator knows of
          save,       \* the state being written
          last,       \* the state written last, with what it should be
          left, bad

vars == <<blocks, nfb, gpc, gnext, al, root, objects, save, last, left, bad>>

NewAl == [empty |-> TRUE, blk |-> 0, nf |-> B, free |-> <<>>, cnt |-> 0]
Blank == [o \in 0..(B - 1) |-> 0]

Init == /\ blocks = <<>> /\ nfb = 0
        /\ gpc = "make" /\ gnext = 0
        /\ al = [a \in Als |-> NewAl]
        /\ root = [k \in Keys |-> None]
        /\ objects = 0
        /\ save = <<>> /\ last = <<>>
        /\ left = [changes |-> Changes, loads |-> Loads]
        /\ bad = ""

Block(b) == blocks[b + 1]
Has(bs, b) == b + 1 \in DOMAIN bs /\ bs[b + 1] # <<>>
Put(bs, b, x) == IF b + 1 <= Len(bs) THEN [bs EXCEPT ![b + 1] = x] ELSE bs \o [i \in 1..(b + 1 - Len(bs)) |-> IF i = b + 1 - Len(bs) THEN x ELSE <<>>]
At(n) == IF Has(blocks, n \div B) THEN Block(n \div B)[n % B] ELSE None
Items(r) == {k \in Keys : r[k] # None}
\* what a tree with these blocks and this root contains
Content(bs, r) == {k \in Items(r) : Has(bs, r[k] \div B) /\ bs[(r[k] \div B) + 1][r[k] % B] = k}

(***************************************************************************)
(* The goroutine.                                                           *)
(***************************************************************************)
Make == /\ gpc = "make" /\ gpc' = "count"
        /\ blocks' = Put(blocks, gnext, Blank)
        /\ UNCHANGED <<nfb, gnext, al, root, objects, save, last, left, bad>>
Counted == /\ gpc = "count" /\ gpc' = "offer"
           /\ nfb' = gnext
           /\ UNCHANGED <<blocks, gnext, al, root, objects, save, last, left, bad>>

(***************************************************************************)
(* Changes, made through an allocator when no state is being saved.         *)
(***************************************************************************)
Quiet == save = <<>> /\ bad = ""
First(b) == IF b = 0 THEN 1 ELSE b * B      \* word 0 is never used
Change == [left EXCEPT !.changes = @ - 1]
Store(n, k) == blocks' = Put(blocks, n \div B, [Block(n \div B) EXCEPT ![n % B] = k])
Counts(a, x, flush) == IF flush THEN objects' = objects + a.cnt + x ELSE UNCHANGED objects

Insert(a, k) ==
    /\ Quiet /\ left.changes > 0 /\ root[k] = None
    /\ LET x == al[a] IN
       \E flush \in BOOLEAN :
       LET c == IF flush THEN 0 ELSE x.cnt + 1 IN
       /\ Counts(x, 1, flush)
       /\ CASE x.free # <<>> ->
                 /\ al' = [al EXCEPT ![a].free = Tail(@), ![a].cnt = c]
                 /\ Store(Head(x.free), k) /\ root' = [root EXCEPT ![k] = Head(x.free)]
                 /\ UNCHANGED <<gpc, gnext>>
            [] x.free = <<>> /\ x.nf + 1 < B ->
                 LET n == First(x.blk) + x.nf IN
                 /\ al' = [al EXCEPT ![a].nf = @ + 1, ![a].cnt = c]
                 /\ Store(n, k) /\ root' = [root EXCEPT ![k] = n]
                 /\ UNCHANGED <<gpc, gnext>>
            [] OTHER ->
                 /\ gpc = "offer"
                 /\ gpc' = "make" /\ gnext' = gnext + 1
                 /\ al' = [al EXCEPT ![a].blk = gnext, ![a].nf = 1, ![a].empty = FALSE, ![a].cnt = c]
                 /\ Store(First(gnext), k) /\ root' = [root EXCEPT ![k] = First(gnext)]
    /\ left' = Change
    /\ UNCHANGED <<nfb, save, last, bad>>
Delete(a, k) ==
    /\ Quiet /\ left.changes > 0 /\ root[k] # None
    /\ \E flush \in BOOLEAN :
         /\ Counts(al[a], -1, flush)
         /\ al' = [al EXCEPT ![a].free = Append(@, root[k]), ![a].cnt = IF flush THEN 0 ELSE @ - 1]
    /\ root' = [root EXCEPT ![k] = None]
    /\ left' = Change
    /\ UNCHANGED <<blocks, nfb, gpc, gnext, save, last, bad>>

(***************************************************************************)
(* Saving.                                                                  *)
(***************************************************************************)
Sum(f) == LET s[n \in 0..NA] == IF n = 0 THEN 0 ELSE s[n - 1] + f[n] IN s[NA]
Begin ==
    /\ Quiet
    /\ LET m == nfb
           used == {al[a].blk + 1 : a \in {a \in Als : ~al[a].empty}}
           n == IF Variant = "block handed out not counted" THEN m ELSE CHOOSE x \in used \cup {m} : \A y \in used \cup {m} : y <= x
           cnt == objects + IF Variant = "counts of allocators not saved" THEN 0 ELSE Sum([a \in Als |-> al[a].cnt])
       IN save' = [next |-> n, i |-> 0,
                   recs |-> <<<<"objects", cnt>>, <<"blocksize", B>>, <<"blocks", n>>, <<"allocators", NA>>, <<"root", root>>>>
                            \o [j \in 1..(2 * NA) |-> IF j % 2 = 1 THEN <<"allocator", (j + 1) \div 2, al[(j + 1) \div 2]>> ELSE <<"end">>]]
    /\ UNCHANGED <<blocks, nfb, gpc, gnext, al, root, objects, last, left, bad>>
SaveBlock ==
    /\ save # <<>> /\ bad = "" /\ save.i < save.next
    /\ IF Has(blocks, save.i)
       THEN save' = [save EXCEPT !.i = @ + 1, !.recs = @ \o <<<<"block", save.i>>, <<"size", B>>, <<"data", Block(save.i)>>>>] /\ UNCHANGED bad
       ELSE bad' = "saved a block that is not there" /\ UNCHANGED save
    /\ UNCHANGED <<blocks, nfb, gpc, gnext, al, root, objects, last, left>>
SaveEnd ==
    /\ save # <<>> /\ bad = "" /\ save.i = save.next
    /\ last' = [recs |-> save.recs, root |-> root]
    /\ save' = <<>>
    /\ UNCHANGED <<blocks, nfb, gpc, gnext, al, root, objects, left, bad>>

(***************************************************************************)
(* Loading: record by record.  The result is a tree, or an error.           *)
(***************************************************************************)
Empty == [objects |-> 0, size |-> 0, nfb |-> 0, na |-> 0, root |-> [k \in Keys |-> None], al |-> <<>>, blocks |-> <<>>, open |-> 0, sections |-> 0, at |-> None, err |-> FALSE]
LoadOne(s, r) ==
    IF s.err THEN s ELSE
    CASE r[1] = "objects" -> [s EXCEPT !.objects = r[2]]
      [] r[1] = "blocksize" -> IF r[2] # B THEN [s EXCEPT !.err = TRUE] ELSE [s EXCEPT !.size = r[2]]
      [] r[1] = "blocks" -> [s EXCEPT !.nfb = r[2]]
      [] r[1] = "allocators" -> [s EXCEPT !.na = r[2], !.al = [a \in 1..r[2] |-> NewAl]]
      [] r[1] = "root" -> [s EXCEPT !.root = r[2]]
      [] r[1] = "allocator" ->
           IF r[2] > s.na THEN [s EXCEPT !.err = TRUE]
           ELSE [s EXCEPT !.open = r[2],
                          !.al[r[2]] = [r[3] EXCEPT !.cnt = 0,
                                                    !.empty = IF Variant = "empty allocator loaded as used" THEN FALSE ELSE @,
                                                    !.nf = IF Variant = "position not loaded" /\ ~r[3].empty THEN 0 ELSE @]]
      [] r[1] = "end" -> [s EXCEPT !.open = 0, !.sections = @ + 1]
      [] r[1] = "block" -> [s EXCEPT !.at = r[2]]
      [] r[1] = "size" -> s
      [] r[1] = "data" -> IF s.at = None THEN [s EXCEPT !.err = TRUE] ELSE [s EXCEPT !.blocks = Put(@, s.at, r[2])]
      [] OTHER -> [s EXCEPT !.err = TRUE]
LoadAll(recs) ==
    LET f[i \in 0..Len(recs)] == IF i = 0 THEN Empty ELSE LoadOne(f[i - 1], recs[i])
        s == f[Len(recs)]
        wants == recs # <<>> /\ recs[Len(recs)][1] \in {"size", "allocator"}    \* something must follow
    IN IF s.err \/ wants
          \/ (Variant # "sections not counted" /\ (s.na = 0 \/ s.sections # s.na))
          \/ (Variant # "blocks not counted" /\ \E b \in 0..(s.nfb - 1) : ~Has(s.blocks, b))
       THEN [s EXCEPT !.err = TRUE] ELSE s

Load ==
    /\ Quiet /\ last # <<>> /\ left.loads > 0
    /\ LET s == LoadAll(last.recs) IN
       IF s.err \/ Len(s.al) # NA THEN bad' = "cannot load" /\ UNCHANGED <<blocks, nfb, gpc, gnext, al, root, objects, left>>
       ELSE /\ blocks' = s.blocks /\ nfb' = s.nfb
            /\ gpc' = "make" /\ gnext' = IF Variant = "blocks made again" THEN 0 ELSE s.nfb
            /\ al' = s.al /\ root' = s.root /\ objects' = s.objects
            /\ left' = [left EXCEPT !.loads = @ - 1]
            /\ UNCHANGED bad
    /\ UNCHANGED <<save, last>>

Next == \/ Make \/ Counted \/ Begin \/ SaveBlock \/ SaveEnd \/ Load
        \/ \E a \in Als, k \in Keys : Insert(a, k) \/ Delete(a, k)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties.                                                              *)
(***************************************************************************)
NotBad == bad = ""
\* every item is where the root says, whatever was saved, loaded and made since
ContentOK == Content(blocks, root) = Items(root)
LenOK == objects + Sum([a \in Als |-> al[a].cnt]) = Cardinality(Items(root))
\* what is free is free once, and not in use
Free == {<<a, i>> : a \in Als, i \in 1..Changes} 
FreeAt(x) == al[x[1]].free[x[2]]
Frees == {x \in Free : x[2] <= Len(al[x[1]].free)}
FreeOK == /\ \A x \in Frees, y \in Frees : FreeAt(x) = FreeAt(y) => x = y
          /\ \A x \in Frees, k \in Items(root) : FreeAt(x) # root[k]
ZeroOK == \A k \in Keys : root[k] # 0
\* a state that is complete can be loaded, and is the same tree; any part of it cannot
SavedOK == last # <<>> =>
    LET s == LoadAll(last.recs) IN
    /\ ~s.err
    /\ s.root = last.root /\ Content(s.blocks, s.root) = Items(last.root)
    /\ s.objects = Cardinality(Items(last.root))
CutOK == last # <<>> => \A n \in 0..(Len(last.recs) - 1) : LoadAll(SubSeq(last.recs, 1, n)).err
=============================================================================
