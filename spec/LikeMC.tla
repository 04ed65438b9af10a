------------------------------- MODULE LikeMC -------------------------------
(* The algorithm decides the relation, and unescaping undoes escaping, for all short strings and patterns. *)
EXTENDS Like
CONSTANTS N
C == {97, 98, 37, 95, 92, 10}
Strings(n) == UNION {[1..k -> C] : k \in 0..n}
VARIABLES s, p
Init == s \in Strings(N - 1) /\ p \in Strings(N)
Next == UNCHANGED <<s, p>>
Spec == Init /\ [][Next]_<<s, p>>
Agrees == Valid(p, 1, 92) => (Table(s, p, 92) = Matches(s, p, 92))
Inverse == Unesc(Esc(p, 1), 1) = p
=============================================================================
