------------------------------ MODULE IterART ------------------------------
(* An iteration in batches, with changes of the tree between its steps: the  *)
(* algorithm of ART against what IterOps says about every iteration.         *)
EXTENDS ART, IterOps

CONSTANTS MaxChanges,      \* while the iteration goes on
          IterVariant      \* "" or a mistake

VARIABLES phase,           \* "build", "iterate", "end"
          it,              \* the abstract iteration (IterOps)
          at, done, pre,   \* the iterator: where to resume, all scanned, values not yet handed out
          ch,              \* changes so far
          ok,
          cause            \* what the last batch met

ivars == <<uni, root, kv, hist, cls, phase, it, at, done, pre, ch, ok, cause>>

IInit == /\ Init
         /\ phase = "build" /\ it = ITNew(<<>>) /\ at = <<>> /\ done = FALSE /\ pre = <<>> /\ ch = 0 /\ ok = TRUE /\ cause = <<>>

Frozen == UNCHANGED <<uni, root, kv>>
Build == /\ phase = "build" /\ Next
         /\ UNCHANGED <<phase, it, at, done, pre, ch, ok, cause>>
Begin == /\ phase = "build" /\ Present # {}
         /\ \E p \in Asked : it' = ITStart(ITNew(p), K, kv, Ab) /\ hist' = hist \o <<1000>> \o p \o <<1000>>
         /\ phase' = "iterate"
         /\ cls' = <<>>
         /\ Frozen /\ UNCHANGED <<at, done, pre, ch, ok, cause>>
Change == /\ phase = "iterate" /\ ch < MaxChanges /\ ~(done /\ pre = <<>>)
          /\ Next
          /\ it' = LET i == CHOOSE i \in 1..Len(K) : kv'[i] # kv[i] \/ Len(K) = i IN ITTouch(it, Ab, i, kv'[i])
          /\ ch' = ch + 1
          /\ UNCHANGED <<phase, at, done, pre, ok, cause>>

\* the kind of way in which the path to resume at is met
RECURSIVE Met(_, _, _)
Met(n, path, a) ==
    LET d == Len(path) IN
    IF d >= Len(a) THEN <<"start">>
    ELSE LET rest == From(a, d + 1) IN
         IF Len(n.pre) >= Len(rest) THEN IF n.pre # rest /\ Less(n.pre, rest) THEN <<"node before, long">> ELSE <<"node after, long", n.pre = rest>>
         ELSE IF n.pre # SubSeq(rest, 1, Len(n.pre)) THEN IF Less(n.pre, rest) THEN <<"node before">> ELSE <<"node after">>
         ELSE LET b == rest[Len(n.pre) + 1]
                  k == Cardinality({i \in 1..Len(n.kids) : n.kids[i].b < b}) + 1
              IN IF k > Len(n.kids) THEN <<"past the end", Len(rest) - Len(n.pre) > 1>>
                 ELSE IF n.kids[k].b # b THEN <<"next child", IsLeaf(n.kids[k]), Len(rest) - Len(n.pre) > 1>>
                 ELSE IF IsLeaf(n.kids[k]) THEN <<"leaf", Len(rest) - Len(n.pre) > 1>>
                 ELSE Met(n.kids[k], path \o n.pre \o <<b>>, a)
HowMet(r, p, a) == LET x == Part(r, p) IN
    IF x[1] = Nil THEN <<"nothing">> ELSE IF IsLeaf(x[1]) THEN <<"collapsed">> ELSE Met(x[1], SubSeq(p, 1, x[2]), a)

\* mistakes
Where(x) == CASE IterVariant = "always from the start" -> <<>>
              [] IterVariant = "skips the child" -> IF x = <<>> THEN x ELSE [x EXCEPT ![Len(x)] = @ + 1]
              [] OTHER -> x

Step ==
    /\ phase = "iterate"
    /\ IF pre # <<>>
       THEN /\ ok' = (ok /\ ITYieldOK(it, K, {}, Head(pre), Owner(Head(pre))))
            /\ it' = ITYield(it, K, Head(pre), Owner(Head(pre)))
            /\ pre' = Tail(pre)
            /\ UNCHANGED <<phase, at, done, cause>>
       ELSE IF done
       THEN /\ ok' = (ok /\ ITEndOK(it))
            /\ it' = ITEnd(it) /\ phase' = "end"
            /\ UNCHANGED <<at, done, pre, cause>>
       ELSE LET s == IterStep(root, it.p, Where(at))
                col == Collapsed(it, K, kv, Ab)
            IN /\ at' = s.at /\ done' = s.done
               /\ cause' = <<HowMet(root, it.p, at), at # <<>>, s.done, Len(s.vals), ch>>
               /\ IF s.vals = <<>>
                  THEN ok' = (ok /\ ITEndOK(it)) /\ it' = ITEnd(it) /\ phase' = "end" /\ pre' = <<>>
                  ELSE /\ ok' = (ok /\ ITYieldOK(it, K, col, s.vals[1], Owner(s.vals[1])))
                       /\ it' = ITYield(it, K, s.vals[1], Owner(s.vals[1]))
                       /\ pre' = Tail(s.vals) /\ UNCHANGED phase
    /\ hist' = Append(hist, 0)
    /\ Frozen /\ UNCHANGED <<cls, ch>>

INext == Build \/ Begin \/ Change \/ Step
ISpec == IInit /\ [][INext]_ivars
IView == <<uni, root, kv, phase, it, at, done, pre, ch, ok>>

IterOKInv == ok
\* with no change the iteration is exact
ExactOK == phase = "end" /\ ch = 0 => it.last = (IF {i \in Present : IsPre(it.p, K[i])} = {} THEN 0 ELSE MaxOf({i \in Present : IsPre(it.p, K[i])}))

\* scripts: the shortest history for each way in which a batch meets the changes made before
Emits == CASE Scripts = "none" \/ phase # "iterate" \/ cause' = cause -> TRUE
           [] OTHER -> Emit(<<cause', cls, it.p = <<>>>>)
=============================================================================
