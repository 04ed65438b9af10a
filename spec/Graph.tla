------------------------------- MODULE Graph -------------------------------
(* What the graph and set algorithms of AdjacencyMatrix, MinCutAGaT, SmallBitset, GospersHack and SubsetEnumerator    *)
(* compute, stated mathematically.  A graph is a set of vertices V and a set E of ordered pairs.                      *)
EXTENDS Integers, Sequences, FiniteSets
ToSet(s) == {s[i] : i \in DOMAIN s}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

Succ(E, S) == {e[2] : e \in {d \in E : d[1] \in S}}
Neighbors(E, S) == Succ(E, S) \ S
RECURSIVE Close(_, _)
Close(E, S) == LET T == S \cup Succ(E, S) IN IF T = S THEN S ELSE Close(E, T)
Within(E, S) == {e \in E : e[1] \in S /\ e[2] \in S}
Reach(E, src) == Close(E, src)
ReachIn(E, src, S) == Close(Within(E, S), src \cap S)
Connected(E, S) == S # {} /\ ReachIn(E, {Min(S)}, S) = S
Adjacent(E, S, T) == \E e \in E : e[1] \in S /\ e[2] \in T

\* connected subgraphs of `super` (grown vertex by vertex, so that sparse graphs stay cheap) that contain a vertex of `source`
CSG(E, super, source) ==
    LET n == Cardinality(super)
        L[k \in 1..n] == IF k = 1 THEN {{v} : v \in super}
                         ELSE UNION {{S \cup {v} : v \in Neighbors(E, S) \cap super} : S \in L[k - 1]}
    IN  {S \in UNION {L[k] : k \in 1..n} : S \cap source # {}}
\* unordered pairs of disjoint connected subgraphs joined by an edge
CCP(E, super) ==
    LET C == CSG(E, super, super)
    IN  {{S, T} : <<S, T>> \in {p \in C \X C : p[1] \cap p[2] = {} /\ Adjacent(E, p[1], p[2])}}
\* splits of a connected set into two connected halves
Cuts(E, S) == {{C, S \ C} : C \in {D \in CSG(E, S, {Min(S)}) : D # S /\ Connected(E, S \ D)}}

\* pairs connected by a path of at least one edge
Paths(E, V) == {<<a, b>> \in V \X V : b \in Close(E, Succ(E, {a}))}

Sym(E) == E \cup {<<e[2], e[1]>> : e \in E}
Components(E, V) == {Reach(E, {v}) : v \in V}
\* F is a minimum spanning forest of (V, E) under the weight function w on edges
SpanningForest(E, V, F) == F \subseteq E /\ F = Sym(F) /\ Components(F, V) = Components(E, V)
                           /\ Cardinality(F) = 2 * (Cardinality(V) - Cardinality(Components(E, V)))
MSF(E, V, w, F) == SpanningForest(E, V, F)
                   /\ \A e \in E \ F : e[2] \in Reach({f \in F : w[f] <= w[e]}, {e[1]})
\* the edges of the root's component, each pointing away from the root
Away(F, root) == {e \in F : e[1] \in Reach(F, {root}) /\ e[2] \notin Reach(Within(F, Reach(F, {root}) \ {e[1]}), {root})
                            /\ (e[1] = root \/ root \in Reach(F \ {e, <<e[2], e[1]>>}, {e[1]}))}

\* sets as binary numbers
Less(A, B) == A # B /\ LET d == Max((A \ B) \cup (B \ A)) IN d \in B
RECURSIVE KSub(_, _)
KSub(A, k) == IF k = 0 THEN {{}} ELSE IF Cardinality(A) < k THEN {}
              ELSE LET x == CHOOSE y \in A : TRUE IN KSub(A \ {x}, k) \cup {B \cup {x} : B \in KSub(A \ {x}, k - 1)}

\* `list` enumerates exactly the elements of `set`, each once (f maps list entries to elements)
Exactly(list, f(_), set) == Len(list) = Cardinality(set) /\ {f(list[i]) : i \in DOMAIN list} = set
Sorted(list) == \A i \in 1..Len(list) - 1 : list[i] < list[i + 1]
============================================================================
