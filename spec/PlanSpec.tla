------------------------------ MODULE PlanSpec ------------------------------
(* Join ordering: connected query graph (V, E), a cardinality for every set of relations, a cost function; the         *)
(* cheapest bushy plan without Cartesian products of every connected set, as a recursion over its splits.               *)
EXTENDS Graph
\* cost of joining l with r beyond the cost of producing both
Step(kind, card, l, r) == IF kind = "cout" THEN card[l \cup r] ELSE 2 * card[l] + 5 * card[r]
LeastStep(kind, card, l, r) == LET a == Step(kind, card, l, r)  b == Step(kind, card, r, l) IN IF a <= b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* Best over the family `fam` of admissible sets (connected sets, or all sets if Cartesian products are allowed)
BestOver(fam, n, kind, card) ==
    LET L[k \in 1..n] ==      \* best[S] for every S of fam with at most k elements
            IF k = 1 THEN [S \in {T \in fam : Cardinality(T) = 1} |-> 0]
            ELSE LET prev == L[k - 1]
                     D == DOMAIN prev
                     new == {T \in fam : Cardinality(T) = k}
                     cost(S) == MinOf({prev[C] + prev[S \ C] + LeastStep(kind, card, C, S \ C) : C \in {X \in D : X \subseteq S /\ Min(S) \in X /\ S \ X \in D}})
                 IN  [S \in D \cup new |-> IF S \in D THEN prev[S] ELSE cost(S)]
    IN  L[n]
=============================================================================
