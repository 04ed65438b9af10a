------------------------------- MODULE CardMC -------------------------------
(* All ways of combining up to N relations by joins and limits, under all small injection tables. *)
EXTENDS Card
CONSTANTS N, MAXSIZE
Rel == 1..N
Small == {<<>>} \cup {<<n>> : n \in 1..MAXSIZE}
Keys == {k \in SUBSET Rel : Cardinality(k) >= 2}
VARIABLES table, forest          \* forest: the data models not yet combined
Init == /\ table \in UNION {[ks -> Small] : ks \in SUBSET Keys}
        /\ forest \in {{[set |-> {r}, size |-> f[r]] : r \in Rel} : f \in [Rel -> Small]}
Next == \E a, b \in forest : a # b /\ forest' = (forest \ {a, b}) \cup {Join(table, a, b)} /\ UNCHANGED table
Spec == Init /\ [][Next]_<<table, forest>>
Val(a) == Limb(a, 1) + (Base * Limb(a, 2))
RECURSIVE Prod(_)
Prod(S) == IF S = {} THEN 1 ELSE LET x == CHOOSE y \in S : TRUE IN Val(x.size) * Prod(S \ {x})
Sound == \A m \in forest :
    /\ m.set \in DOMAIN table => ~Lt(table[m.set], m.size)
    /\ \A n \in forest : m # n => m.set \cap n.set = {}
Grow == [][Prod(forest') <= Prod(forest)]_<<table, forest>>
Exact == [][table = <<>> => Prod(forest') = Prod(forest)]_<<table, forest>>
\* arithmetic
ASSUME \A a, b \in {0, 1, 2, 99, 9999} : Mul(Norm(<<a, b>>), Norm(<<b>>)) = Norm(LET x == a * b  y == (b * b) + (x \div Base) IN <<x % Base, y % Base, y \div Base>>)
ASSUME \A a, b \in 0..60 : Sub(Norm(<<a>>), Norm(<<b>>)) = Norm(<<IF a > b THEN a - b ELSE 0>>) /\ (Lt(Norm(<<a>>), Norm(<<b>>)) = (a < b))
ASSUME Mul(<<0, 0, 0, 1>>, <<0, 0, 0, 1>>) = Top /\ Mul(Top, One) = Top /\ Sub(Top, Top) = <<>>
=============================================================================
