------------------------------ MODULE TypesMC ------------------------------
(* The join of arithmetic types is a join: commutative, associative, idempotent, and it never narrows. *)
EXTENDS Types
INTS == {<<"int", n>> : n \in {1, 2, 4, 8}}
DECS == {<<"decimal", p, s>> : p \in {1, 2, 3, 4, 5, 8, 9, 10, 18, 19}, s \in {0, 1, 2, 9, 19}}
TYPES == INTS \cup {<<"float">>, <<"double">>} \cup {t \in DECS : t[3] <= t[2]}
VARIABLES a, b, c
Init == a \in TYPES /\ b \in TYPES /\ c \in TYPES
Next == UNCHANGED <<a, b, c>>
Spec == Init /\ [][Next]_<<a, b, c>>
Commutes == JoinTypes(a, b) = JoinTypes(b, a)
Associates == JoinTypes(JoinTypes(a, b), c) = JoinTypes(a, JoinTypes(b, c))
Idempotent == JoinTypes(a, a) = a
Widens == ~Narrower(JoinTypes(a, b), a) /\ ~Narrower(JoinTypes(a, b), b)
Least == JoinTypes(a, JoinTypes(a, b)) = JoinTypes(a, b)
\* joining never makes an operand pass for an ill-typed one, and comparability is an equivalence on numbers
Closed == JoinTypes(a, b)[1] \in {"int", "float", "double", "decimal"}
=============================================================================
