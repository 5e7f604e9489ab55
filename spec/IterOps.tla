------------------------------- MODULE IterOps -------------------------------
(* The abstract state of one iteration that runs while the content changes.  *)
(*                                                                           *)
(* p        the prefix                                                       *)
(* st       0 not started, 1 running, 2 ended                                *)
(* stable   matching keys present from the start until now                   *)
(* ever     <<key, value>> pairs present at some moment since the start      *)
(* last     the last key yielded (0: none)                                   *)
(* skipped  lasting keys passed over without having been yielded             *)
EXTENDS MapOps

ITNew(p) == [p |-> p, st |-> 0, stable |-> {}, ever |-> {}, last |-> 0, skipped |-> {}, known |-> 0]

\* called at the start of the first Next
ITStart(it, keys, kv, ab) ==
    IF it.st # 0 THEN it
    ELSE [it EXCEPT !.st = 1,
                    !.stable = {i \in DOMAIN kv : kv[i] # ab /\ IsPre(it.p, keys[i])},
                    !.ever = {<<i, kv[i]>> : i \in {j \in DOMAIN kv : kv[j] # ab}}]

\* key i got value v (ab: was deleted)
ITTouch(it, ab, i, v) ==
    IF it.st # 1 THEN it
    ELSE IF v = ab THEN [it EXCEPT !.stable = @ \ {i}, !.skipped = @ \ {i}]
    ELSE [it EXCEPT !.ever = @ \cup {<<i, v>>}]

(***************************************************************************)
(* The known finding: deletions collapsed the part of the tree the          *)
(* iteration was to be resumed in to the single key x, which might be an    *)
(* already yielded one.  Then x is the only present key below some prefix   *)
(* it shares with a key y > last that was there and is no more (or is the   *)
(* only key in the tree).                                                   *)
(***************************************************************************)
Collapsed(it, keys, kv, ab) ==
    {x \in {i \in DOMAIN kv : kv[i] # ab /\ i <= it.last /\ IsPre(it.p, keys[i])} :
        \E y \in {e[1] : e \in it.ever} :
            /\ y > it.last
            /\ kv[y] = ab
            /\ LET m == LCP(keys[x], keys[y])
                   alone(n) == \A z \in DOMAIN kv : kv[z] # ab /\ z # x => SubSeq(keys[z], 1, MinNat(n, Len(keys[z]))) # SubSeq(keys[x], 1, n)
               IN alone(m)}

\* Next returned value v of key kk; col is the set of keys that may be repeated
ITYieldOK(it, keys, col, v, kk) ==
    /\ it.st = 1
    /\ kk > 0
    /\ <<kk, v>> \in it.ever
    /\ IF IsPre(it.p, keys[kk]) THEN kk > it.last \/ kk \in col
       ELSE it.stable = {}
ITYield(it, keys, v, kk) ==
    IF IsPre(it.p, keys[kk])
    THEN IF kk > it.last
         THEN [it EXCEPT !.last = kk, !.skipped = @ \cup {i \in it.stable : it.last < i /\ i < kk}]
         ELSE [it EXCEPT !.known = 1]
    ELSE [it EXCEPT !.st = 2]   \* a candidate for nothing ends the iteration

\* Next returned false
ITEndOK(it) == it.skipped \cup {i \in it.stable : i > it.last} = {}
ITEnd(it) == [it EXCEPT !.st = 2, !.stable = {}, !.ever = {}, !.skipped = {}]
=============================================================================
