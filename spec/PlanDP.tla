------------------------------- MODULE PlanDP -------------------------------
(* Plan tables as a state machine: any enumerator is a sequence of updates of the plan table with pairs (l, r) of      *)
(* already planned, disjoint, adjacent sets.  Whatever the order, entries never beat the optimum; if every pair is      *)
(* considered after all pairs that build its sides (bottom-up, by size, by subset, top-down with memoisation), the      *)
(* table ends up with the optimum of every connected set.  Checked for all connected graphs on N vertices.              *)
EXTENDS PlanSpec
CONSTANTS N, Cards
VARIABLES E, card, kind, plan, todo, ordered, best
vars == <<E, card, kind, plan, todo, ordered, best>>
V == 0..N - 1
CardOf(c, S) == LET s == {x \in V : x \in S} IN ((Cardinality(s) * c[1] + (IF 0 \in s THEN c[2] ELSE 0) + (IF {1, 2} \subseteq s THEN c[3] ELSE 0)) % c[4]) + 1
Init == /\ E \in {Sym(F) : F \in SUBSET {e \in V \X V : e[1] < e[2]}} /\ Connected(E, V)
        /\ \E c \in Cards : card = [S \in SUBSET V \ {{}} |-> CardOf(c, S)]
        /\ kind \in {"cout", "asym"} /\ ordered \in IF Cardinality(E) <= 6 /\ kind = "cout" THEN BOOLEAN ELSE {TRUE}
        /\ plan = [S \in {{v} : v \in V} |-> <<{}, {}, 0>>]
        /\ todo = CCP(E, V)
        /\ best = BestOver(CSG(E, V, V), N, kind, card)
Update(p) ==
    LET l == CHOOSE x \in p : TRUE  r == CHOOSE x \in p : x # l  S == l \cup r
        c == plan[l][3] + plan[r][3] + LeastStep(kind, card, l, r)
    IN  /\ l \in DOMAIN plan /\ r \in DOMAIN plan
        /\ ordered => \A q \in todo : UNION q # l /\ UNION q # r
        /\ plan' = IF S \in DOMAIN plan /\ plan[S][3] <= c THEN plan
                   ELSE [T \in DOMAIN plan \cup {S} |-> IF T = S THEN <<l, r, c>> ELSE plan[T]]
        /\ todo' = todo \ {p}
        /\ UNCHANGED <<E, card, kind, ordered, best>>
\* the order only matters through "ordered"; one canonical choice among the possible next pairs keeps the model small there
Pick == IF todo = {} THEN {} ELSE IF ordered THEN LET ok == {q \in todo : \A x \in todo : Cardinality(UNION q) <= Cardinality(UNION x)} IN {CHOOSE q \in ok : TRUE} ELSE todo
Next == \E p \in Pick : Update(p)
Spec == Init /\ [][Next]_vars
MCCards == {<<3, 5, 2, 11>>, <<7, 1, 9, 13>>, <<2, 4, 1, 5>>}
Sound == \A S \in DOMAIN plan : S \in DOMAIN best /\ plan[S][3] >= best[S]
Optimal == ordered /\ todo = {} => DOMAIN plan = CSG(E, V, V) /\ \A S \in DOMAIN plan : plan[S][3] = best[S]
=============================================================================
