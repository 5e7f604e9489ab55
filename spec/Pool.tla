-------------------------------- MODULE Pool --------------------------------
(* Allocators are shared out by flags: 0 is free, 1 is taken.  Taking one    *)
(* means finding a zero and replacing it by compare and swap.  Len, Stop and *)
(* Start take all of them, one after another, under a lock.  Each allocator  *)
(* counts the changes made through it, and adds its count to a common one    *)
(* now and then.                                                             *)
(*                                                                           *)
(* Threads run programs of calls; one step is one access to a shared word.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NA, Programs, Variant

Threads == DOMAIN Programs
Slots == 1..NA

VARIABLES slot, lock, stopped, live, cnt, th,
          total,    \* the changes made (ghost)
          want,     \* the tree was stopped and not started since (ghost)
          users     \* users[i]: threads that think they have allocator i (ghost)

vars == <<slot, lock, stopped, live, cnt, th, total, want, users>>

Init == /\ slot = [i \in Slots |-> 0]
        /\ lock = 0
        /\ stopped = FALSE
        /\ live = 0
        /\ cnt = [i \in Slots |-> 0]
        /\ th = [t \in Threads |-> [pc |-> "idle", todo |-> Programs[t]]]
        /\ total = 0
        /\ want = FALSE
        /\ users = [i \in Slots |-> {}]

Set(t, r) == th' = [th EXCEPT ![t] = r]
To(t, pc) == Set(t, [th[t] EXCEPT !.pc = pc])
At(t, pc) == th[t].pc = pc

Begin(t) ==
    /\ At(t, "idle") /\ th[t].todo # <<>>
    /\ LET o == Head(th[t].todo) IN
       Set(t, [pc |-> CASE o \in {"use", "flush"} -> "get" [] OTHER -> IF Variant = "no lock" THEN "check" ELSE "lock",
               op |-> o, todo |-> Tail(th[t].todo), i |-> 1, got |-> 0, all |-> 0, sum |-> 0, j |-> 1, was |-> FALSE, low |-> total])
    /\ UNCHANGED <<slot, lock, stopped, live, cnt, total, want, users>>
Finish(t) == Set(t, [pc |-> "idle", todo |-> th[t].todo])

(***************************************************************************)
(* Taking a free one.                                                       *)
(***************************************************************************)
After(r) == IF r.op \in {"use", "flush"} THEN "work" ELSE IF r.all + 1 = NA THEN "have" ELSE "get"
NextI(i) == IF i = NA THEN 1 ELSE i + 1
Look(t) ==
    /\ At(t, "get")
    /\ IF slot[th[t].i] = 0 THEN To(t, "cas") ELSE Set(t, [th[t] EXCEPT !.i = NextI(@)])
    /\ UNCHANGED <<slot, lock, stopped, live, cnt, total, want, users>>
Cas(t) ==
    /\ At(t, "cas")
    /\ LET r == th[t] IN
       IF slot[r.i] = 0 \/ Variant = "taken without looking again"
       THEN /\ slot' = [slot EXCEPT ![r.i] = 1]
            /\ users' = [users EXCEPT ![r.i] = @ \cup {t}]
            /\ Set(t, [r EXCEPT !.pc = After(r), !.got = r.i, !.all = @ + 1, !.i = 1])
       ELSE Set(t, [r EXCEPT !.pc = "get", !.i = NextI(@)]) /\ UNCHANGED <<slot, users>>
    /\ UNCHANGED <<lock, stopped, live, cnt, total, want>>

(***************************************************************************)
(* A change, which maybe is the one after which the count is given away.    *)
(***************************************************************************)
Work(t) ==
    /\ At(t, "work")
    /\ cnt' = [cnt EXCEPT ![th[t].got] = @ + 1]
    /\ total' = total + 1
    /\ To(t, IF th[t].op = "flush" THEN "flush" ELSE "put")
    /\ UNCHANGED <<slot, lock, stopped, live, want, users>>
Flush(t) ==
    /\ At(t, "flush")
    /\ IF Variant = "added in two steps" THEN Set(t, [th[t] EXCEPT !.pc = "flushadd", !.sum = live]) /\ UNCHANGED live
       ELSE live' = live + cnt[th[t].got] /\ To(t, "flush2")
    /\ UNCHANGED <<slot, lock, stopped, cnt, total, want, users>>
FlushAdd(t) ==
    /\ At(t, "flushadd")
    /\ live' = th[t].sum + cnt[th[t].got] /\ To(t, "flush2")
    /\ UNCHANGED <<slot, lock, stopped, cnt, total, want, users>>
Flush2(t) ==
    /\ At(t, "flush2")
    /\ cnt' = [cnt EXCEPT ![th[t].got] = 0]
    /\ To(t, "put")
    /\ UNCHANGED <<slot, lock, stopped, live, total, want, users>>
Put(t) ==
    /\ At(t, "put")
    /\ slot' = [slot EXCEPT ![th[t].got] = 0]
    /\ users' = [users EXCEPT ![th[t].got] = @ \ {t}]
    /\ Finish(t)
    /\ UNCHANGED <<lock, stopped, live, cnt, total, want>>

(***************************************************************************)
(* Len, Stop and Start.                                                     *)
(***************************************************************************)
Lock(t) == /\ At(t, "lock") /\ lock = 0
           /\ lock' = t
           /\ To(t, "check")
           /\ UNCHANGED <<slot, stopped, live, cnt, total, want, users>>
Check(t) ==
    /\ At(t, "check")
    /\ LET r == th[t] IN
       Set(t, [r EXCEPT !.was = stopped,
                        !.pc = CASE r.op = "stop" -> IF stopped THEN "unlock" ELSE "get"
                                 [] r.op = "start" -> IF stopped THEN "restart" ELSE "unlock"
                                 [] OTHER -> IF stopped \/ Variant = "len does not wait" THEN "read" ELSE "get"])
    /\ UNCHANGED <<slot, lock, stopped, live, cnt, total, want, users>>
Have(t) ==
    /\ At(t, "have")
    /\ IF th[t].op = "stop" THEN stopped' = TRUE /\ want' = TRUE /\ To(t, "unlock")
       ELSE UNCHANGED <<stopped, want>> /\ To(t, "read")
    /\ UNCHANGED <<slot, lock, live, cnt, total, users>>
Read(t) ==
    /\ At(t, "read")
    /\ Set(t, [th[t] EXCEPT !.sum = live, !.pc = "sum"])
    /\ UNCHANGED <<slot, lock, stopped, live, cnt, total, want, users>>
Sum(t) ==
    /\ At(t, "sum")
    /\ LET r == th[t]
           s == r.sum + cnt[r.j]
           ok == r.low <= s /\ s <= total
       IN Set(t, [r EXCEPT !.sum = s, !.j = @ + 1,
                           !.pc = IF r.j < NA THEN "sum" ELSE IF ~ok THEN "bad" 
                                   ELSE IF Variant = "len does not wait" THEN "unlock"
                                   ELSE IF r.was THEN (IF Variant = "len starts" THEN "restart" ELSE "unlock") ELSE "all",
                           !.all = NA])
    /\ UNCHANGED <<slot, lock, stopped, live, cnt, total, want, users>>
Restart(t) ==
    /\ At(t, "restart")
    /\ stopped' = FALSE
    /\ want' = IF th[t].op = "start" THEN FALSE ELSE want
    /\ Set(t, [th[t] EXCEPT !.pc = "all", !.all = NA])
    /\ UNCHANGED <<slot, lock, live, cnt, total, users>>
\* those acquired by all the calls that took all of them are released in order
ReleaseAll(t) ==
    /\ At(t, "all")
    /\ LET r == th[t]
           i == NA - r.all + 1
       IN /\ slot' = [slot EXCEPT ![i] = 0]
          /\ users' = [users EXCEPT ![i] = IF Variant \in {"no lock", "len starts"} THEN @ \ {t} ELSE {}]
          /\ Set(t, [r EXCEPT !.all = @ - 1, !.pc = IF r.all = 1 THEN "unlock" ELSE "all"])
    /\ UNCHANGED <<lock, stopped, live, cnt, total, want>>
Unlock(t) ==
    /\ At(t, "unlock")
    /\ lock' = IF lock = t THEN 0 ELSE lock
    /\ Finish(t)
    /\ UNCHANGED <<slot, stopped, live, cnt, total, want, users>>

Step(t) == Begin(t) \/ Look(t) \/ Cas(t) \/ Work(t) \/ Flush(t) \/ FlushAdd(t) \/ Flush2(t) \/ Put(t) \/ Lock(t) \/ Check(t) \/ Have(t) \/ Read(t) \/ Sum(t)
           \/ Restart(t) \/ ReleaseAll(t) \/ Unlock(t)
AllDone == \A t \in Threads : At(t, "idle") /\ th[t].todo = <<>>
Next == (\E t \in Threads : Step(t)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
\* mutexes are fair; everything else just goes on
FairSpec == Spec /\ \A t \in Threads : WF_vars(Step(t)) /\ SF_vars(Lock(t)) /\ SF_vars(Cas(t))

(***************************************************************************)
(* Properties.                                                              *)
(***************************************************************************)
Working(t) == th[t].pc \in {"work", "flush", "flushadd", "flush2", "put"}
\* no one else has the allocator one works with
AloneOK == \A t \in Threads : Working(t) => \A u \in Threads \ {t} : ~(Working(u) /\ th[u].got = th[t].got)
TakenOK == \A t \in Threads : Working(t) => slot[th[t].got] = 1
StoppedOK == stopped = want /\ (stopped => \A t \in Threads : ~Working(t))
SumOf(f) == LET s[n \in 0..NA] == IF n = 0 THEN 0 ELSE s[n - 1] + f[n] IN s[NA]
CountOK == /\ \A t \in Threads : ~At(t, "bad")
           /\ AllDone => live + SumOf(cnt) = total
\* those who have to wait for others do not wait forever, unless the tree stays stopped
Blocked(t) == th[t].pc \in {"get", "cas"} /\ th[t].op \in {"use", "flush"}
Stays == \A t \in Threads : (At(t, "idle") /\ th[t].todo = <<>>) \/ Blocked(t)
Termination == <>[](AllDone \/ (stopped /\ Stays))
=============================================================================
