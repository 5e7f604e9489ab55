----------------------------- MODULE ConcTrace -----------------------------
(* Trace specification for concurrent executions.                            *)
(*                                                                           *)
(* A trace records the call and the return of every operation, in their real *)
(* order.  The only step that is not in the trace is the instant at which a  *)
(* finalized write takes effect: Lin(t), somewhere between the call and the  *)
(* return.  TLC looks for places of the Lin steps that explain the trace.    *)
(* Queries change nothing, so each can be judged on its own: while one is    *)
(* pending, what was stored during it is accumulated.                        *)
(*                                                                           *)
(* keys, pre (initial content), nth (threads), ev.  Values are positive      *)
(* numbers, 0 is absent.  "Stored" facts are triples <<key, lo, hi>>: values *)
(* lo..hi were stored under key during some call.                            *)
EXTENDS IterOps, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
KNOWN  == IOEnv.KNOWN = "1"
NT     == Len(Traces)
Lcps   == [t \in 1..NT |-> LcpTable(Traces[t].keys)]

VARIABLES tid, l, kv, pend, it

vars == <<tid, l, kv, pend, it>>

T == Traces[tid]
K == T.keys
Ab == 0

None == [op |-> "none"]

Init == /\ tid \in 1..NT
        /\ l = 1
        /\ kv = Traces[tid].pre
        /\ pend = [t \in 1..Traces[tid].nth |-> None]
        /\ it = [t \in 1..Traces[tid].nth |-> ITNew(<<>>)]

E == T.ev[l]
Is(name) == l <= Len(T.ev) /\ E[1] = name
Adv == l' = l + 1 /\ UNCHANGED tid

Stored(c) == {<<i, c[i], c[i]>> : i \in {j \in DOMAIN c : c[j] # Ab}}
In(S, k, v) == \E x \in S : x[1] = k /\ x[2] <= v /\ v <= x[3]

(***************************************************************************)
(* What pending operations accumulate.                                      *)
(***************************************************************************)
Point(k) ==   \* a lookup or prepare of key number k, or of an unknown key (0)
    [op |-> "point", k |-> k, what |-> "", over |-> FALSE,
     seen |-> IF k = 0 THEN {} ELSE {kv[k]},
     cand |-> IF k = 0 \/ kv[k] = Ab THEN Stored(kv) ELSE {}]

Ranging(p, what) ==
    [op |-> "range", p |-> p, what |-> what,
     stable |-> {i \in DOMAIN kv : kv[i] # Ab /\ IsPre(p, K[i])},
     ever |-> Stored(kv), col |-> {}]

\* o: a pending operation; content becomes c by key i getting value v
After(o, c, i, v) ==
    CASE o.op = "point" ->
           IF o.k = 0 THEN [o EXCEPT !.cand = IF v = Ab THEN @ ELSE @ \cup {<<i, v, v>>}]
           ELSE IF o.k = i
                THEN [o EXCEPT !.seen = @ \cup {v}, !.cand = IF v = Ab THEN @ \cup Stored(c) ELSE @]
                ELSE [o EXCEPT !.cand = IF v # Ab /\ c[o.k] = Ab THEN @ \cup {<<i, v, v>>} ELSE @]
      [] o.op = "range" ->
           [o EXCEPT !.stable = IF v = Ab THEN @ \ {i} ELSE @,
                     !.ever = IF v = Ab THEN @ ELSE @ \cup {<<i, v, v>>}]
      [] o.op = "len" -> [o EXCEPT !.sizes = @ \cup {Size(c, Ab)}]
      [] OTHER -> o

\* the change of key i to value v, seen by the others
Change(i, v) ==
    LET c == [kv EXCEPT ![i] = v]
        j == [t \in DOMAIN it |-> ITTouch(it[t], Ab, i, v)]
    IN /\ kv' = c
       /\ it' = j
       /\ pend' = [t \in DOMAIN pend |->
             LET o == After(pend[t], c, i, v)
             IN IF KNOWN /\ o.op = "range" /\ o.what = "next"
                THEN [o EXCEPT !.col = @ \cup Collapsed(j[t], K, c, Ab)] ELSE o]

\* a writer overlaps with all pending writers
Writer(o) == o.op \in {"held", "fin"} \/ (o.op = "point" /\ o.what \in {"pu", "pd"})
Overlap(t) ==
    [u \in DOMAIN pend |-> IF u # t /\ Writer(pend[u]) THEN [pend[u] EXCEPT !.over = TRUE] ELSE pend[u]]
AnyWriter(t) == \E u \in DOMAIN pend : u # t /\ Writer(pend[u])

(***************************************************************************)
(* Calls and returns.                                                       *)
(***************************************************************************)
\* <<"call", thread, "get" | "pu" | "pd", key, bytes>>: key 0 for one outside of the universe
CallPoint ==
    /\ Is("call") /\ E[3] \in {"get", "pu", "pd"}
    /\ pend[E[2]] = None
    /\ pend' = LET t == E[2]
                   o == [Point(E[4]) EXCEPT !.what = E[3], !.over = AnyWriter(t)]
               IN IF E[3] = "get" THEN [pend EXCEPT ![t] = o] ELSE [Overlap(t) EXCEPT ![t] = o]
    /\ UNCHANGED <<kv, it>> /\ Adv

PointOK(o, f, v, kk) ==
    IF o.k # 0 /\ f /\ kk = o.k THEN v \in o.seen \ {Ab}
    ELSE IF f THEN kk > 0 /\ In(o.cand, kk, v)
    ELSE o.k = 0 \/ Ab \in o.seen

\* <<"ret", thread, found, value, owner>>
RetPoint ==
    /\ Is("ret") /\ pend[E[2]].op = "point"
    /\ LET o == pend[E[2]] IN
       /\ (PointOK(o, E[3], E[4], E[5]) = TRUE)
       /\ pend' = [pend EXCEPT ![E[2]] =
             IF o.what = "get" \/ (o.what = "pd" /\ ~E[3]) THEN None
             ELSE [op |-> "held", k |-> o.k, what |-> o.what, over |-> o.over,
                   shown |-> IF E[3] /\ E[5] = o.k THEN E[4] ELSE Ab]]
    /\ UNCHANGED <<kv, it>> /\ Adv

\* <<"call", thread, "fin", value>> (0 for a delete)
CallFin ==
    /\ Is("call") /\ E[3] = "fin"
    /\ pend[E[2]].op = "held"
    /\ (E[4] = Ab) = (pend[E[2]].what = "pd")
    /\ pend' = [pend EXCEPT ![E[2]] = [op |-> "fin", k |-> pend[E[2]].k, what |-> pend[E[2]].what, over |-> pend[E[2]].over,
                                       shown |-> pend[E[2]].shown, v |-> E[4], lin |-> FALSE]]
    /\ UNCHANGED <<kv, it>> /\ Adv

\* the write takes effect: the entry shown by the prepare step is the current one
Lin(t) ==
    /\ pend[t].op = "fin" /\ ~pend[t].lin
    /\ kv[pend[t].k] = pend[t].shown
    /\ LET o == pend[t]
           c == [kv EXCEPT ![o.k] = o.v]
           j == [u \in DOMAIN it |-> ITTouch(it[u], Ab, o.k, o.v)]
       IN /\ kv' = c
          /\ it' = j
          /\ pend' = [u \in DOMAIN pend |->
                IF u = t THEN [o EXCEPT !.lin = TRUE]
                ELSE LET q == After(pend[u], c, o.k, o.v)
                     IN IF KNOWN /\ q.op = "range" /\ q.what = "next"
                        THEN [q EXCEPT !.col = @ \cup Collapsed(j[u], K, c, Ab)] ELSE q]
    /\ UNCHANGED <<tid, l>>

\* <<"ret", thread, success>>
RetFin ==
    /\ Is("ret") /\ pend[E[2]].op = "fin"
    /\ E[3] = pend[E[2]].lin
    /\ E[3] \/ pend[E[2]].over      \* refused only if there was someone to conflict with
    /\ pend' = [pend EXCEPT ![E[2]] = None]
    /\ UNCHANGED <<kv, it>> /\ Adv

\* <<"call", thread, "abort">>
CallAbort ==
    /\ Is("call") /\ E[3] = "abort"
    /\ pend[E[2]].op = "held"
    /\ pend' = [pend EXCEPT ![E[2]] = [op |-> "abort"]]
    /\ UNCHANGED <<kv, it>> /\ Adv
RetAbort ==
    /\ Is("ret") /\ pend[E[2]].op = "abort"
    /\ pend' = [pend EXCEPT ![E[2]] = None]
    /\ UNCHANGED <<kv, it>> /\ Adv

\* <<"call", thread, "len">>
CallLen ==
    /\ Is("call") /\ E[3] = "len"
    /\ pend[E[2]].op = "none"
    /\ pend' = [pend EXCEPT ![E[2]] = [op |-> "len", sizes |-> {Size(kv, Ab)}]]
    /\ UNCHANGED <<kv, it>> /\ Adv
RetLen ==
    /\ Is("ret") /\ pend[E[2]].op = "len"
    /\ E[3] \in pend[E[2]].sizes
    /\ pend' = [pend EXCEPT ![E[2]] = None]
    /\ UNCHANGED <<kv, it>> /\ Adv

\* <<"call", thread, "admin", command>>: there is an answer, whatever it is
CallAdmin ==
    /\ Is("call") /\ E[3] = "admin"
    /\ pend[E[2]].op = "none"
    /\ pend' = [pend EXCEPT ![E[2]] = [op |-> "admin"]]
    /\ UNCHANGED <<kv, it>> /\ Adv
RetAdmin ==
    /\ Is("ret") /\ pend[E[2]].op = "admin" /\ E[3]
    /\ pend' = [pend EXCEPT ![E[2]] = None]
    /\ UNCHANGED <<kv, it>> /\ Adv

\* <<"call", thread, "min" | "max" | "cnt", prefix>>
CallRange ==
    /\ Is("call") /\ E[3] \in {"min", "max", "cnt"}
    /\ pend[E[2]] = None
    /\ pend' = [pend EXCEPT ![E[2]] = Ranging(E[4], E[3])]
    /\ UNCHANGED <<kv, it>> /\ Adv

\* <<"ret", thread, found, value, owner>>
ExtremeOK(o, f, v, kk) ==
    IF f THEN /\ kk > 0 /\ In(o.ever, kk, v)
              /\ IF IsPre(o.p, K[kk])
                 THEN \A i \in o.stable : IF o.what = "min" THEN kk <= i ELSE i <= kk
                 ELSE o.stable = {}
         ELSE o.stable = {}

\* <<"ret", thread, leaves>>
CountBetween(o, n) ==
    /\ Cardinality(o.stable) <= n
    /\ LET m == {x[1] : x \in {y \in o.ever : IsPre(o.p, K[y[1]])}}
       IN n <= Cardinality(m) \/ (n = 1 /\ o.stable = {} /\ o.ever # {})

RetRange ==
    /\ Is("ret") /\ pend[E[2]].op = "range"
    /\ LET o == pend[E[2]] IN
       CASE o.what \in {"min", "max"} -> (ExtremeOK(o, E[3], E[4], E[5]) = TRUE) /\ UNCHANGED it
         [] o.what = "cnt" -> (CountBetween(o, E[3]) = TRUE) /\ UNCHANGED it
         [] o.what = "next" ->
              LET i == it[E[2]] IN
              IF E[3] THEN /\ i.st = 1
                           /\ E[5] > 0 /\ \E x \in i.ever : x[1] = E[5] /\ x[2] = E[4]
                           /\ (ITYieldOK(i, K, o.col, E[4], E[5]) = TRUE)
                           /\ it' = [it EXCEPT ![E[2]] = ITYield(i, K, E[4], E[5])]
                      ELSE /\ (ITEndOK(i) = TRUE)
                           /\ it' = [it EXCEPT ![E[2]] = ITEnd(i)]
         [] OTHER -> FALSE
    /\ pend' = [pend EXCEPT ![E[2]] = None]
    /\ UNCHANGED kv /\ Adv

(***************************************************************************)
(* Iterators: one per thread. <<"inew", thread, prefix>>, <<"call", thread, *)
(* "next">>, <<"ret", thread, found, value, owner>>.                        *)
(***************************************************************************)
INew ==
    /\ Is("inew")
    /\ it' = [it EXCEPT ![E[2]] = ITNew(E[3])]
    /\ UNCHANGED <<kv, pend>> /\ Adv
CallNext ==
    /\ Is("call") /\ E[3] = "next"
    /\ pend[E[2]] = None
    /\ LET i == ITStart(it[E[2]], K, kv, Ab) IN
       /\ it' = [it EXCEPT ![E[2]] = i]
       /\ pend' = [pend EXCEPT ![E[2]] = [op |-> "range", p |-> i.p, what |-> "next", stable |-> {}, ever |-> {},
                                          col |-> IF KNOWN /\ i.st = 1 THEN Collapsed(i, K, kv, Ab) ELSE {}]]
    /\ UNCHANGED kv /\ Adv

(***************************************************************************)
(* <<"bulk", thread, <<<<key, lo, hi, end>>, ...>>>>: many changes, made by  *)
(* one thread, none of them pending for long.  In some order, values lo..hi *)
(* were stored under key; it might have been absent in between; at the end  *)
(* it has value end (0: absent).                                            *)
(***************************************************************************)
Bulk ==
    /\ Is("bulk")
    /\ LET B == {E[3][i] : i \in 1..Len(E[3])}
           ks == {b[1] : b \in B}
           tr == {<<b[1], b[2], b[3]>> : b \in B}
           c  == [i \in DOMAIN kv |-> IF i \in ks THEN (CHOOSE b \in B : b[1] = i)[4] ELSE kv[i]]
       IN /\ kv' = c
          /\ pend' = [t \in DOMAIN pend |->
               LET o == pend[t] IN
               CASE o.op = "point" -> [o EXCEPT !.cand = IF o.k = 0 \/ c[o.k] = Ab \/ o.k \in ks THEN @ \cup tr \cup Stored(c) ELSE @,
                                                !.seen = IF o.k \in ks THEN @ \cup {Ab} \cup UNION {b[2]..b[3] : b \in {x \in B : x[1] = o.k}} ELSE @]
                 [] o.op = "range" -> [o EXCEPT !.stable = @ \ ks, !.ever = @ \cup tr]
                 [] o.op = "len" -> [o EXCEPT !.sizes = (Size(c, Ab) - Cardinality(ks))..(Size(c, Ab) + Cardinality(ks))]
                 [] OTHER -> o]
          /\ it' = [t \in DOMAIN it |->
               LET i == it[t] IN
               IF i.st # 1 THEN i
               ELSE [i EXCEPT !.stable = @ \ ks, !.skipped = @ \ ks,
                              !.ever = @ \cup UNION {{<<b[1], v>> : v \in b[2]..b[3]} : b \in B}]]
    /\ Adv

(***************************************************************************)
(* Questions to a tree at rest (audits), and changes with nothing else      *)
(* going on.                                                                *)
(***************************************************************************)
Quiet == \A t \in DOMAIN pend : pend[t] = None
Gets  == /\ Is("gets") /\ Quiet
         /\ (\A i \in 1..Len(K) : ProbeOK(kv, Ab, i, E[2][i][1], E[2][i][2], E[2][i][3])) = TRUE
         /\ UNCHANGED <<kv, pend, it>> /\ Adv
QIter == /\ Is("iter") /\ Quiet /\ (IterOK(K, kv, Ab, E[2], E[3]) = TRUE) /\ UNCHANGED <<kv, pend, it>> /\ Adv
QExt  == /\ Is("ext") /\ Quiet /\ (ExtOK(K, kv, Ab, E[2], E[3], E[4], E[5]) = TRUE) /\ UNCHANGED <<kv, pend, it>> /\ Adv
QLen  == /\ Is("len") /\ Quiet /\ E[2] = Size(kv, Ab) /\ UNCHANGED <<kv, pend, it>> /\ Adv
QCnt  == /\ Is("cnt") /\ Quiet /\ (CountOK(K, Lcps[tid], kv, Ab, E[2], E[3]) = TRUE) /\ UNCHANGED <<kv, pend, it>> /\ Adv
\* <<"put", key, found, value shown, owner, value stored, ok>>
QPut  == /\ Is("put") /\ Quiet /\ (ProbeOK(kv, Ab, E[2], E[3], E[4], E[5]) = TRUE) /\ E[7]
         /\ Change(E[2], E[6]) /\ Adv
\* <<"del", key, found, value shown, owner, ok>>
QDel  == /\ Is("del") /\ Quiet /\ (ProbeOK(kv, Ab, E[2], E[3], E[4], E[5]) = TRUE)
         /\ IF kv[E[2]] # Ab THEN E[6] /\ Change(E[2], Ab) ELSE ~E[6] /\ UNCHANGED <<kv, pend, it>>
         /\ Adv

Next == \/ CallPoint \/ RetPoint \/ CallFin \/ RetFin \/ CallAbort \/ RetAbort
        \/ CallLen \/ RetLen \/ CallAdmin \/ RetAdmin \/ CallRange \/ RetRange \/ INew \/ CallNext \/ Bulk
        \/ Gets \/ QIter \/ QExt \/ QLen \/ QCnt \/ QPut \/ QDel
        \/ \E t \in DOMAIN pend : Lin(t)

Spec == Init /\ [][Next]_vars

ASSUME \A t \in 1..NT : TLCSet(t, 0)
Track == LET m == TLCGet(tid) IN IF l > m THEN TLCSet(tid, l) ELSE TRUE

Rejected == {t \in 1..NT : TLCGet(t) # Len(Traces[t].ev) + 1}
Accepted == /\ \A t \in 1..NT : LegalKeys(Traces[t].keys)
            /\ \A t \in Rejected : PrintT(<<"REJECTED", t, TLCGet(t)>>)
            /\ PrintT(<<"CHECKED", NT, Cardinality(Rejected)>>)
=============================================================================
