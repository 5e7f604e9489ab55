------------------------------ MODULE SeqTrace ------------------------------
(* Trace specification for executions in which one call is made at a time:   *)
(* is each recorded answer one that the abstract map admits?                 *)
(*                                                                           *)
(* The file named by TRACES holds a JSON array of traces, each               *)
(*   [keys |-> sequence of byte strings, big |-> 0/1, nt |-> number of trees,*)
(*    nb |-> number of saved states, ni |-> number of iterators,             *)
(*    ev |-> sequence of events]                                             *)
(* Every trace is an initial state, every event one step.  A trace is        *)
(* accepted when its last event has been consumed.                           *)
EXTENDS IterOps, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
KNOWN  == IOEnv.KNOWN = "1"
NT     == Len(Traces)

Lcps == [t \in 1..NT |-> LcpTable(Traces[t].keys)]

VARIABLES tid, l, tree, saved, it

vars == <<tid, l, tree, saved, it>>

T    == Traces[tid]
K    == T.keys
Big  == T.big = 1
\* the absent value
Ab   == IF Big THEN <<>> ELSE 0
\* only 55 bits are kept: values of big traces are limbs of 20, 22 and 22 bits
Trunc(v) == IF Big THEN <<v[1] % 2048, v[2], v[3]>> ELSE v

Trunc0(v) == IF v = Ab THEN Ab ELSE Trunc(v)

Empty == [i \in 1..Len(K) |-> Ab]

Init == /\ tid \in 1..NT
        /\ l = 1
        /\ tree = [t \in 1..Traces[tid].nt |-> [kv |-> IF t = 1 THEN [i \in 1..Len(Traces[tid].keys) |-> IF Traces[tid].big = 1 THEN <<>> ELSE 0] ELSE <<>>,
                                                 st |-> IF t = 1 THEN "run" ELSE "none", na |-> Traces[tid].na, round |-> 0, changes |-> 0, peak |-> 0]]
        /\ saved = [b \in 1..Traces[tid].nb |-> <<>>]
        /\ it = [i \in 1..Traces[tid].ni |-> [tr |-> 0, s |-> ITNew(<<>>)]]

E == T.ev[l]

\* set key k of tree t to v
Write(t, k, v) ==
    /\ tree' = [tree EXCEPT ![t].kv[k] = v]
    /\ it' = [i \in DOMAIN it |-> IF it[i].tr = t THEN [it[i] EXCEPT !.s = ITTouch(@, Ab, k, v)] ELSE it[i]]
    /\ UNCHANGED saved

Same == UNCHANGED <<tree, saved, it>>

Running(t) == tree[t].st = "run"

Is(name) == l <= Len(T.ev) /\ E[1] = name

\* <<"get", tree, key index, found, value, owner>>
Get == Is("get") /\ Running(E[2]) /\ (ProbeOK(tree[E[2]].kv, Ab, E[3], E[4], E[5], E[6]) = TRUE) /\ Same

\* <<"gets", tree, <<found, value, owner>> of every key>>
Gets == /\ Is("gets") /\ Running(E[2])
        /\ (LET c == tree[E[2]].kv IN \A i \in 1..Len(K) : ProbeOK(c, Ab, i, E[3][i][1], E[3][i][2], E[3][i][3])) = TRUE
        /\ Same

\* <<"probe", tree, key bytes, found, value, owner>>: lookup, or prepared and aborted delete, of any key
Probe == /\ Is("probe") /\ Running(E[2])
         /\ LET ks == {i \in 1..Len(K) : K[i] = E[3]}
            IN IF ks # {} THEN (ProbeOK(tree[E[2]].kv, Ab, CHOOSE i \in ks : TRUE, E[4], E[5], E[6]) = TRUE)
                          ELSE (StrangeOK(tree[E[2]].kv, Ab, E[4], E[5], E[6]) = TRUE)
         /\ Same

\* <<"put", tree, key index, found, value shown, owner, value stored, ok>>
Put == /\ Is("put") /\ Running(E[2])
       /\ (ProbeOK(tree[E[2]].kv, Ab, E[3], E[4], E[5], E[6]) = TRUE)
       /\ E[8]
       /\ Write(E[2], E[3], Trunc(E[7]))

\* <<"del", tree, key index, found, value shown, owner, ok>>: finalized if the shown value belongs to the key
Del == /\ Is("del") /\ Running(E[2])
       /\ (ProbeOK(tree[E[2]].kv, Ab, E[3], E[4], E[5], E[6]) = TRUE)
       /\ IF tree[E[2]].kv[E[3]] # Ab
          THEN E[7] /\ Write(E[2], E[3], Ab)
          ELSE ~E[7] /\ Same

\* <<"abort", tree, key index, found, value shown, owner>>: an update or delete that was aborted
Abort == Is("abort") /\ Running(E[2]) /\ (ProbeOK(tree[E[2]].kv, Ab, E[3], E[4], E[5], E[6]) = TRUE) /\ Same

\* <<"iter", tree, prefix, values>>, and <<"iterp", ...>> for one not brought to its end
Iter  == Is("iter") /\ Running(E[2]) /\ (IterOK(K, tree[E[2]].kv, Ab, E[3], E[4]) = TRUE) /\ Same
IterP == Is("iterp") /\ Running(E[2]) /\ (IterPartOK(K, tree[E[2]].kv, Ab, E[3], E[4]) = TRUE) /\ Same

\* <<"ext", tree, prefix, max?, found, value>>
Ext == Is("ext") /\ Running(E[2]) /\ (ExtOK(K, tree[E[2]].kv, Ab, E[3], E[4], E[5], E[6]) = TRUE) /\ Same

\* <<"len", tree, n>>
LenQ == Is("len") /\ tree[E[2]].st \in {"run", "stop"} /\ E[3] = Size(tree[E[2]].kv, Ab) /\ Same

\* <<"cnt", tree, prefix, shape>> and <<"leaves", tree, prefix, leaves>>
Cnt == Is("cnt") /\ Running(E[2]) /\ (CountOK(K, Lcps[tid], tree[E[2]].kv, Ab, E[3], E[4]) = TRUE) /\ Same
Leaves == Is("leaves") /\ Running(E[2]) /\ (LeavesOK(K, tree[E[2]].kv, Ab, E[3], E[4]) = TRUE) /\ Same

\* <<"churn", tree, <<<<key, value>>, ...>>, bad>>: many changes, of which the last values are known
Churn == /\ Is("churn") /\ Running(E[2]) /\ E[4] = 0
         /\ tree' = [tree EXCEPT ![E[2]].kv = [i \in DOMAIN @ |->
                IF i >= E[3][1][1] /\ i < E[3][1][1] + Len(E[3]) THEN Trunc0(E[3][i - E[3][1][1] + 1][2]) ELSE @[i]]]
         /\ UNCHANGED <<saved, it>>

(***************************************************************************)
(* Iterators stepped while the tree changes.                                *)
(* <<"inew", iterator, tree, prefix>>, <<"inext", iterator, found, value,   *)
(* owner>>                                                                  *)
(***************************************************************************)
INew == /\ Is("inew")
        /\ it' = [it EXCEPT ![E[2]] = [tr |-> E[3], s |-> ITNew(E[4])]]
        /\ UNCHANGED <<tree, saved>>
INext == /\ Is("inext")
         /\ LET x  == it[E[2]]
                kv == tree[x.tr].kv
                s  == ITStart(x.s, K, kv, Ab)
            IN /\ Running(x.tr)
               /\ IF E[3]
                  THEN /\ (ITYieldOK(s, K, IF KNOWN THEN Collapsed(s, K, kv, Ab) ELSE {}, E[4], E[5]) = TRUE)
                       /\ it' = [it EXCEPT ![E[2]].s = ITYield(s, K, E[4], E[5])]
                  ELSE /\ (ITEndOK(s) = TRUE)
                       /\ it' = [it EXCEPT ![E[2]].s = ITEnd(s)]
         /\ UNCHANGED <<tree, saved>>

\* <<"new", tree, number of allocators>>: another tree, which knows nothing of the others
New == /\ Is("new")
       /\ tree' = [tree EXCEPT ![E[2]] = [kv |-> Empty, na |-> E[3], st |-> "run", round |-> 0, changes |-> 0, peak |-> 0]]
       /\ UNCHANGED <<saved, it>>

(***************************************************************************)
(* Stopping, saving and loading.                                            *)
(***************************************************************************)
Stop  == Is("stop") /\ tree[E[2]].st \in {"run", "stop"} /\ tree' = [tree EXCEPT ![E[2]].st = "stop"] /\ UNCHANGED <<saved, it>>
Start == Is("start") /\ tree[E[2]].st \in {"run", "stop"} /\ tree' = [tree EXCEPT ![E[2]].st = "run"] /\ UNCHANGED <<saved, it>>

\* <<"save", tree, state, result>>
Save == /\ Is("save") /\ tree[E[2]].st = "stop" /\ E[4] = "ok"
        /\ saved' = [saved EXCEPT ![E[3]] = [kv |-> tree[E[2]].kv, na |-> tree[E[2]].na]]
        /\ UNCHANGED <<tree, it>>
\* <<"load", state, tree, result>>
Load == /\ Is("load") /\ E[4] = "ok"
        /\ tree' = [tree EXCEPT ![E[3]] = [kv |-> saved[E[2]].kv, na |-> saved[E[2]].na, st |-> "run", round |-> 0, changes |-> 0, peak |-> 0]]
        /\ UNCHANGED <<saved, it>>
\* <<"cut", state, length, result>>: loading a proper prefix of the state
Cut == Is("cut") /\ E[4] = "error" /\ Same
\* <<"failsave", tree, position, result>>: saving to a writer that fails from the given position on
FailSave == Is("failsave") /\ tree[E[2]].st = "stop" /\ E[4] = "its error" /\ Same
\* <<"close", tree, number of goroutines left>>
Close == /\ Is("close") /\ E[3] = 0
         /\ tree' = [tree EXCEPT ![E[2]].st = "closed"]
         /\ UNCHANGED <<saved, it>>

(***************************************************************************)
(* Memory: <<"mem", tree, words, changes>> ends a round of a cyclic history, *)
(* of that many changes.  During the first rounds (T.warm) the memory grows  *)
(* to its working size.  From then on it may only grow by chance, when an    *)
(* unusually large number of changes of one kind come together: by a        *)
(* hundredth of T.node per change, where T.node is the size of the nodes    *)
(* the changes are about, less for orderly changes of one large node        *)
(* (nothing is left to chance there), more for random ones.                 *)
(***************************************************************************)
MemLimit(peak, changes) == peak + 16384 + (changes \div 100) * MaxOf({T.node, 25})
Mem == /\ Is("mem")
       /\ LET t == tree[E[2]]
              c == IF t.round < T.warm THEN 0 ELSE t.changes + E[4]
          IN
          /\ t.round >= T.warm /\ ~(KNOWN /\ T.cross = 1) => E[3] <= MemLimit(t.peak, c)
          /\ tree' = [tree EXCEPT ![E[2]].round = @ + 1,
                                  ![E[2]].changes = c,
                                  ![E[2]].peak = IF t.round < T.warm THEN MaxOf({@, E[3]}) ELSE @]
       /\ UNCHANGED <<saved, it>>

(***************************************************************************)
(* Diagnostics: they change nothing, and what they tell is true.            *)
(* <<"stats", tree, allocators, blocks, bytes, size of a block, objects,    *)
(* exact?, bytes per key (-1: not told), root is 0?, what was there before>> *)
(***************************************************************************)
Stats == /\ Is("stats") /\ tree[E[2]].st \in {"run", "stop"}
         /\ E[3] = tree[E[2]].na
         /\ E[4] > 0 /\ E[6] > 0 /\ E[5] = E[4] * E[6]
         /\ E[8] => E[7] = Size(tree[E[2]].kv, Ab)
         /\ IF E[7] > 0 THEN E[9] = E[5] \div E[7] ELSE E[9] = 0 - 1
         /\ E[10] = (Size(tree[E[2]].kv, Ab) = 0)
         /\ E[11] = 1
         /\ Same
\* <<"blocks", tree, blocks before, blocks after, rows, rows in use>>
Blocks == /\ Is("blocks") /\ E[3] <= E[5] /\ E[5] <= E[4] /\ E[6] = E[5] - 1 /\ Same
AllocatorsQ == Is("allocators") /\ E[3] = tree[E[2]].na /\ Same
\* <<"dump", tree, "ok", what is shown of the root and all below>>
Dump == /\ Is("dump") /\ tree[E[2]].st \in {"run", "stop"} /\ E[3] = "ok"
        /\ (DumpOK(K, tree[E[2]].kv, Ab, E[4]) = TRUE)
        /\ Same
\* <<"admin", tree, arguments, something was printed>>
Admin == Is("admin") /\ E[4] /\ Same

Next == /\ l' = l + 1
        /\ UNCHANGED tid
        /\ \/ Get \/ Gets \/ Probe \/ Put \/ Del \/ Abort \/ Iter \/ IterP \/ Ext \/ LenQ \/ Cnt \/ Leaves
           \/ New \/ INew \/ INext \/ Stop \/ Start \/ Save \/ Load \/ Cut \/ FailSave \/ Close \/ Mem \/ Churn
           \/ Stats \/ Blocks \/ AllocatorsQ \/ Dump \/ Admin

Spec == Init /\ [][Next]_vars

\* every event determines the next state
View == <<tid, l>>

(***************************************************************************)
(* Acceptance: the highest position reached by each trace is kept in a      *)
(* register (one worker), rejected traces are printed at the end.           *)
(***************************************************************************)
ASSUME \A t \in 1..NT : TLCSet(t, 0)
Track == LET m == TLCGet(tid) IN IF l > m THEN TLCSet(tid, l) ELSE TRUE

Rejected == {t \in 1..NT : TLCGet(t) # Len(Traces[t].ev) + 1}
\* pf: keys may be prefixes of others (which are never present together with them)
Accepted == /\ \A t \in 1..NT : IF Traces[t].pf = 1 THEN SortedKeys(Traces[t].keys) ELSE LegalKeys(Traces[t].keys)
            /\ \A t \in Rejected : PrintT(<<"REJECTED", t, TLCGet(t)>>)
            /\ PrintT(<<"CHECKED", NT, Cardinality(Rejected)>>)
=============================================================================
