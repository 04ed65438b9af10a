------------------------------- MODULE CoverMC -------------------------------
(* For every small plan and set of physical operators: keeping only the cheapest covering for every condition of every operator
   (the dynamic program) loses nothing. *)
EXTENDS Cover

Leaf(i) == <<"a", i, <<>> >>
Plans == {Leaf(0), <<"b", 1, <<Leaf(0)>> >>, <<"b", 2, << <<"b", 1, <<Leaf(0)>> >> >> >>, <<"c", 2, <<Leaf(0), Leaf(1)>> >>,
          <<"c", 3, << <<"b", 1, <<Leaf(0)>> >>, Leaf(2) >> >>, <<"b", 3, << <<"c", 2, <<Leaf(0), Leaf(1)>> >> >> >>}
Pats == {<<"a", <<>> >>, <<"b", <<>> >>, <<"b", << <<"W">> >> >>, <<"b", << <<"b", << <<"W">> >> >> >> >>, <<"b", << <<"c", <<>> >> >> >>, <<"c", << <<"b", << <<"W">> >> >>, <<"W">> >> >>, <<"c", <<>> >>}
Conds == {{}, {0}, {0, 2}}
VARIABLES plan, xs
\* always an operator for every kind, and up to two more
Base == {[p |-> <<k, <<>> >>, cost |-> [i \in 0..3 |-> 2], pre |-> [i \in 0..3 |-> {}], post |-> {}, last |-> FALSE] : k \in {"a", "b", "c"}}
Init == plan \in Plans /\ xs = Base
Add == \E p \in Pats, c \in {1, 3}, pre \in Conds \cup {{NEVER}}, post \in Conds, last \in BOOLEAN :
    /\ Cardinality(xs) < 5
    /\ xs' = xs \cup {[p |-> p, cost |-> [i \in 0..3 |-> c], pre |-> [i \in 0..3 |-> pre], post |-> post, last |-> last]}
    /\ UNCHANGED plan
Spec == Init /\ [][Add]_<<plan, xs>>
Sound == \A o \in Operators(plan) : Table(xs, o) = Cheapest(Coverings(xs, o))
Some == Coverings(xs, plan) # {}
=============================================================================
