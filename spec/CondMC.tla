------------------------------- MODULE CondMC -------------------------------
(* What is implied holds, and what is kept of an order holds of the projected result: for all results of up to 3 tuples over
   3 attributes with 2 values, and all orders of up to 3 (known) and 2 (demanded) attributes. *)
EXTENDS Cond, TLC
A == {"x", "y", "z"}
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i][1] # s[j][1]
Orders(n, D) == {s \in UNION {[1..k -> A \X D] : k \in 0..n} : Distinct(s)}
Pure == Orders(3, {"asc", "desc"}) \cup Orders(3, {"any"})
Rels == UNION {[1..k -> [A -> 0..1]] : k \in 0..3}
Maps == {s \in UNION {[1..k -> A \X {"p", "q", "r"}] : k \in 0..3} : \A i \in 1..Len(s) : s[i][2] = <<"p", "q", "r">>[i]}
VARIABLES k, rel
Init == k \in Pure /\ rel \in Rels /\ Known(k, rel)
Next == UNCHANGED <<k, rel>>
Spec == Init /\ [][Next]_<<k, rel>>
Demands == Orders(2, {"asc", "desc"}) \cup Orders(2, {"any"})
Sound == \A d \in Demands : OrderImplied(d, k) => Demanded(d, rel)
Image(m) == [i \in 1..Len(rel) |-> [n \in {m[j][2] : j \in 1..Len(m)} |-> rel[i][m[CHOOSE j \in 1..Len(m) : m[j][2] = n][1]]]]
Kept == \A m \in Maps : Known(Projected(k, m), Image(m))
=============================================================================
