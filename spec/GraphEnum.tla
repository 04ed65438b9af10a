------------------------------ MODULE GraphEnum ------------------------------
(* The enumeration algorithms themselves (worklists of for_each_CSG_undirected and of MinCutAGaT), checked for every   *)
(* graph on N vertices against the mathematical definitions of module Graph: every element once, nothing else.         *)
EXTENDS Graph
CONSTANT N
VARIABLES E, mode, todo, work, seen, dup, source, S
vars == <<E, mode, todo, work, seen, dup, source, S>>
V == 0..N - 1
Graphs == {Sym(F) : F \in SUBSET {e \in V \X V : e[1] < e[2]}}
Init == /\ E \in Graphs /\ seen = {} /\ dup = FALSE
        /\ \/ mode = "csg" /\ S \in SUBSET V /\ source \in SUBSET S /\ todo = source /\ work = {}
           \/ /\ mode = "cut" /\ S \in {T \in SUBSET V : Cardinality(T) > 1 /\ Connected(E, T)} /\ source = {} /\ todo = {}
              /\ work = {<<{Min(S)}, {}, {Min(S)}>>}
\* the next source vertex, once the subgraphs grown from the previous one are exhausted
NextSource == /\ mode = "csg" /\ work = {} /\ todo # {}
              /\ LET i == Min(todo) IN work' = {<<{i}, {x \in source : x > i}, {}>>} /\ todo' = todo \ {i}
              /\ UNCHANGED <<E, mode, seen, dup, source, S>>
Visit(x) == seen' = seen \cup {x} /\ dup' = (dup \/ x \in seen)
Emit == /\ mode = "csg"
        /\ \E w \in work :
             LET C == w[1]  nb == (Neighbors(E, C) \cap S) \ w[2] IN
             /\ Visit(C)
             /\ work' = (work \ {w}) \cup {<<C \cup n, w[2] \cup nb, {}>> : n \in SUBSET nb \ {{}}}
        /\ UNCHANGED <<E, mode, todo, source, S>>
RECURSIVE Children(_, _, _, _)
Children(C, X, T, nb) == IF nb = {} THEN {} ELSE LET v == Min(nb) IN {<<C \cup {v}, X, T \cup {v}>>} \cup Children(C, X \cup {v}, T, nb \ {v})
Cut == /\ mode = "cut"
       /\ \E w \in work :
            LET C == w[1]  X == w[2]  T == w[3]
                NT == (Neighbors(E, T) \cap S) \ C
                conn == Cardinality(NT) <= 1 \/ NT \subseteq ReachIn(E, {Min(NT)}, S \ C)
            IN  /\ IF conn THEN Visit(C) ELSE UNCHANGED <<seen, dup>>
                /\ work' = (work \ {w}) \cup
                     (IF Cardinality(C) + 1 >= Cardinality(S) THEN {}
                      ELSE Children(C, X, IF conn THEN {} ELSE C, (Neighbors(E, C) \cap S) \ X))
       /\ UNCHANGED <<E, mode, todo, source, S>>
Next == NextSource \/ Emit \/ Cut
Spec == Init /\ [][Next]_vars
Once == ~dup
Done == work = {} /\ todo = {}
Expected == IF mode = "csg" THEN CSG(E, S, source) ELSE {C \in SUBSET S : Min(S) \in C /\ C # S /\ Connected(E, C) /\ Connected(E, S \ C)}
OnlyValid == seen \subseteq Expected
Complete == Done => seen = Expected
==============================================================================
