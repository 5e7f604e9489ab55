----------------------------- MODULE PoolTrace -----------------------------
(* Trace specification for acquiring and releasing allocators, stopping and  *)
(* starting.                                                                 *)
(*                                                                           *)
(* The tree owns na allocators.  An allocator is free, acquired by a thread, *)
(* or used by a prepared operation.  Stopping waits until all are free, and  *)
(* from then on none can be had until the tree is started.  A call is        *)
(* recorded as <<"call", thread, name, key, result>> followed by             *)
(* <<"ret", thread>>; it takes effect at some instant in between, which is a *)
(* silent step.  TLC looks for places of the silent steps that explain the   *)
(* trace.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
NT     == Len(Traces)

VARIABLES tid, l, stopped, has, held, open, mine, pend

vars == <<tid, l, stopped, has, held, open, mine, pend>>

T == Traces[tid]
E == T.ev[l]
Is(name) == l <= Len(T.ev) /\ E[1] = name
Adv == l' = l + 1 /\ UNCHANGED tid

None == [op |-> "none"]
Threads == 1..T.nth

Init == /\ tid \in 1..NT
        /\ l = 1
        /\ stopped = FALSE
        /\ has = {i \in 1..Len(Traces[tid].keys) : Traces[tid].pre[i] # 0}
        /\ held = {}          \* acquired allocators
        /\ open = {}          \* threads with a prepared operation that uses an allocator of its own
        /\ mine = [t \in 1..Traces[tid].nth |-> 0]
        /\ pend = [t \in 1..Traces[tid].nth |-> None]

InUse == Cardinality(held) + Cardinality(open)
\* another allocator can be had
Available == ~stopped /\ InUse < T.na

Call == /\ Is("call") /\ pend[E[2]].op = "none"
        /\ pend' = [pend EXCEPT ![E[2]] = [op |-> E[3], k |-> E[4], res |-> E[5], n |-> 0]]
        /\ UNCHANGED <<stopped, has, held, open, mine>> /\ Adv

Done(t) == pend' = [pend EXCEPT ![t].op = "done"]

Acquire(t) == /\ pend[t].op = "acq" /\ Available
              /\ pend[t].res \in 1..T.na /\ pend[t].res \notin held
              /\ held' = held \cup {pend[t].res}
              /\ mine' = [mine EXCEPT ![t] = pend[t].res]
              /\ Done(t) /\ UNCHANGED <<stopped, has, open>>
Release(t) == /\ pend[t].op = "rel" /\ mine[t] \in held
              /\ held' = held \ {mine[t]}
              /\ mine' = [mine EXCEPT ![t] = 0]
              /\ Done(t) /\ UNCHANGED <<stopped, has, open>>

Stop(t) == /\ pend[t].op = "stop"
           /\ stopped \/ InUse = 0
           /\ stopped' = TRUE
           /\ Done(t) /\ UNCHANGED <<has, held, open, mine>>
Start(t) == /\ pend[t].op = "start"
            /\ stopped' = FALSE
            /\ Done(t) /\ UNCHANGED <<has, held, open, mine>>

LenQ(t) == /\ pend[t].op = "len"
           /\ pend[t].res = Cardinality(has)
           /\ Done(t) /\ UNCHANGED <<stopped, has, held, open, mine>>
\* diagnostics; items an iterator has read ahead
Free(t) == /\ pend[t].op \in {"admin", "peek"}
           /\ Done(t) /\ UNCHANGED <<stopped, has, held, open, mine>>

\* a query, and a prepare that finds nothing
Use(t) == /\ pend[t].op = "use" \/ (pend[t].op = "pd" /\ pend[t].res = 0)
          /\ mine[t] # 0 \/ Available
          /\ Done(t) /\ UNCHANGED <<stopped, has, held, open, mine>>

Prepare(t) == /\ pend[t].op \in {"pu", "pd"} /\ pend[t].res = 1
              /\ mine[t] # 0 \/ Available
              /\ open' = IF mine[t] # 0 THEN open ELSE open \cup {t}
              /\ Done(t) /\ UNCHANGED <<stopped, has, held, mine>>
\* the change
Write(t) == /\ pend[t].op = "fin" /\ pend[t].n = 0
            /\ has' = IF pend[t].res = 0 THEN has
                      ELSE IF pend[t].k > 0 THEN has \cup {pend[t].k} ELSE has \ {-pend[t].k}
            /\ pend' = [pend EXCEPT ![t].n = 1]
            /\ UNCHANGED <<stopped, held, open, mine>>
\* and the end of the operation
End(t) == /\ pend[t].op = "abort" \/ (pend[t].op = "fin" /\ pend[t].n = 1)
          /\ open' = open \ {t}
          /\ Done(t) /\ UNCHANGED <<stopped, has, held, mine>>

\* nothing is lost by letting things take effect as late as the trace allows
Silent == /\ l <= Len(T.ev) /\ E[1] \in {"ret", "save"}
          /\ \E t \in Threads : \/ Acquire(t) \/ Release(t) \/ Stop(t) \/ Start(t) \/ LenQ(t) \/ Free(t) \/ Use(t)
                                \/ Prepare(t) \/ Write(t) \/ End(t)
          /\ UNCHANGED <<tid, l>>

Ret == /\ Is("ret") /\ pend[E[2]].op = "done"
       /\ pend' = [pend EXCEPT ![E[2]] = None]
       /\ UNCHANGED <<stopped, has, held, open, mine>> /\ Adv

\* <<"save", thread, keys, length>>: what the state written while stopped contains
Save == /\ Is("save") /\ stopped /\ InUse = 0
        /\ E[3] = Cardinality(has) /\ E[4] = E[3]
        /\ UNCHANGED <<stopped, has, held, open, mine, pend>> /\ Adv

(***************************************************************************)
(* At the end.                                                              *)
(***************************************************************************)
Quiet == ~stopped /\ held = {} /\ open = {} /\ \A t \in Threads : pend[t] = None
\* <<"all", allocators>>: every one of them can be had
All == /\ Is("all") /\ Quiet
       /\ Len(E[2]) = T.na /\ {E[2][i] : i \in 1..Len(E[2])} = 1..T.na
       /\ UNCHANGED <<stopped, has, held, open, mine, pend>> /\ Adv
\* <<"rest", length, items>>
Rest == /\ Is("rest") /\ Quiet
        /\ E[2] = Cardinality(has) /\ E[3] = E[2]
        /\ UNCHANGED <<stopped, has, held, open, mine, pend>> /\ Adv
\* <<"closed", goroutines left>>
Closed == /\ Is("closed") /\ E[2] = 0
          /\ UNCHANGED <<stopped, has, held, open, mine, pend>> /\ Adv

Next == Call \/ Silent \/ Ret \/ Save \/ All \/ Rest \/ Closed

Spec == Init /\ [][Next]_vars

ASSUME \A t \in 1..NT : TLCSet(t, 0)
Track == LET m == TLCGet(tid) IN IF l > m THEN TLCSet(tid, l) ELSE TRUE

Rejected == {t \in 1..NT : TLCGet(t) # Len(Traces[t].ev) + 1}
Accepted == /\ \A t \in Rejected : PrintT(<<"REJECTED", t, TLCGet(t)>>)
            /\ PrintT(<<"CHECKED", NT, Cardinality(Rejected)>>)
=============================================================================
