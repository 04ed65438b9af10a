----------------------------- MODULE GraphTrace -----------------------------
EXTENDS Graph, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, V, E
Ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1 /\ V = {} /\ E = {}
Is(name) == Ev[l][1] = name
A(k) == Ev[l][k]
T(k) == ToSet(Ev[l][k])
Pairs(k) == T(k)
Two(p) == {ToSet(p[1]), ToSet(p[2])}
AscDesc(S, asc, desc) == T(asc) = S /\ T(desc) = S /\ Sorted(A(asc)) /\ Len(A(asc)) = Cardinality(S)
                         /\ Len(A(desc)) = Cardinality(S) /\ \A i \in DOMAIN A(desc) : A(desc)[i] = A(asc)[Len(A(asc)) + 1 - i]
U == 0..63
Holds ==
    CASE Is("nb")  -> T(3) = Neighbors(E, T(2))
      [] Is("re")  -> T(3) = Reach(E, T(2))
      [] Is("rs")  -> T(4) = ReachIn(E, T(2), T(3))
      [] Is("co")  -> A(3) = Connected(E, T(2))
      [] Is("cl")  -> A(4) = Adjacent(E, T(2), T(3))
      [] Is("csg") -> Exactly(A(4), ToSet, CSG(E, T(2), T(3)))
      [] Is("ccp") -> Exactly(A(3), Two, CCP(E, T(2)))
      [] Is("mc")  -> Exactly(A(3), Two, Cuts(E, T(2)))
      [] Is("tcu") -> Pairs(2) = Paths(E, V)
      [] Is("tcd") -> Pairs(2) = Paths(E, V)
      [] Is("msf") -> LET W == T(2) IN
                      MSF(E, {e[1] : e \in E}, [e \in E |-> LET x == CHOOSE y \in W : {y[1], y[2]} = {e[1], e[2]} IN x[3]], Pairs(3))
      [] Is("tree") -> Pairs(4) = Away(Pairs(3), A(2))
      [] Is("flip") -> Pairs(4) = (E \cup {<<A(2), A(3)>>}) \ (E \cap {<<A(2), A(3)>>}) /\ ~A(5) /\ A(6)
      [] Is("same") -> Pairs(2) = E /\ A(3) /\ ~A(4)
      [] Is("bin") -> /\ T(4) = T(2) \cup T(3) /\ T(5) = T(2) \cap T(3) /\ T(6) = T(2) \ T(3)
                      /\ A(7) = (T(2) \subseteq T(3)) /\ A(8) = (T(2) = T(3)) /\ A(9) = (T(2) # T(3)) /\ T(10) = U \ T(2)
      [] Is("iter") -> /\ AscDesc(T(2), 3, 4)
                       /\ A(5) = [i \in DOMAIN A(3) |-> <<A(3)[i]>>] /\ A(6) = [i \in DOMAIN A(4) |-> <<A(4)[i]>>]
      [] Is("un")  -> A(3) = Cardinality(T(2)) /\ A(4) = (T(2) = {}) /\ A(5) = (Cardinality(T(2)) = 1)
      [] Is("hi")  -> T(3) = {Max(T(2))} /\ T(4) = 0..Min(T(2)) /\ T(5) = {Min(T(2))}
      [] Is("lm")  -> T(3) = 0..Min(T(2)) - 1
      [] Is("inc") -> LET m == Min(U \ T(2)) IN T(3) = {m} \cup {x \in T(2) : x > m}
      [] Is("dec") -> LET m == Min(T(2)) IN T(3) = (T(2) \ {m}) \cup (0..m - 1)
      [] Is("all") -> T(3) = 0..A(2) - 1
      [] Is("set") -> T(5) = (IF A(4) THEN T(2) \cup {A(3)} ELSE T(2) \ {A(3)}) /\ A(6) = (A(3) \in T(2)) /\ A(7) = A(4)
      [] Is("sub") -> Exactly(A(3), ToSet, SUBSET T(2) \ {{}})
      [] Is("ksub") -> Exactly(A(4), ToSet, KSub(T(2), A(3)))
      [] Is("gos") -> Exactly(A(4), ToSet, KSub(0..A(3) - 1, A(2)))
      [] Is("goc") -> Exactly(A(4), ToSet, {(U \ (0..A(3) - 1)) \cup B : B \in KSub(0..A(3) - 1, A(3) - A(2))})
      [] Is("gof") -> Exactly(A(4), ToSet, {B \in KSub(0..A(3) - 1, Cardinality(T(2))) : ~Less(B, T(2))})
      [] OTHER -> FALSE
Load == Is("G") /\ V' = 0..A(2) - 1 /\ E' = Pairs(3)
Step == IF Is("G") THEN Load ELSE Holds /\ UNCHANGED <<V, E>>
Next == l <= Len(Ev) /\ Step /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, V, E>>
NoReject == l <= Len(Ev) => (Is("G") \/ Holds)
=============================================================================
