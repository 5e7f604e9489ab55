------------------------------- MODULE Bytes -------------------------------
(* Byte strings: sequences of numbers 0..255 in lexicographic order.        *)
EXTENDS Naturals, Sequences, FiniteSets

MinNat(a, b) == IF a < b THEN a ELSE b
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

IsPre(p, k) == Len(p) <= Len(k) /\ SubSeq(k, 1, Len(p)) = p

\* length of the longest common prefix
LCP(a, b) == LET m == MinNat(Len(a), Len(b))
                 D == {i \in 1..m : a[i] # b[i]}
             IN IF D = {} THEN m ELSE MinOf(D) - 1

Less(a, b) == LET c == LCP(a, b)
              IN IF c = Len(a) THEN c < Len(b)
                 ELSE c < Len(b) /\ a[c + 1] < b[c + 1]

\* a sequence of keys is a legal universe if sorted, and no key is the prefix of another or empty
SortedKeys(ks) == \A i \in 1..Len(ks) : Len(ks[i]) > 0 /\ (i < Len(ks) => Less(ks[i], ks[i + 1]))
LegalKeys(ks) == /\ \A i \in 1..Len(ks) : Len(ks[i]) > 0
                 /\ \A i \in 1..(Len(ks) - 1) : Less(ks[i], ks[i + 1]) /\ ~IsPre(ks[i], ks[i + 1])
=============================================================================
