------------------------------ MODULE Partial ------------------------------
(* Partial plans: a plan is a function from the sets of relations it joins to [l, r]; a partial plan is a set of pairwise disjoint
   subplans.  It is complete if it has every relation. *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Partials(_, _)
Partials(t, S) == {{S}} \cup IF Cardinality(S) = 1 THEN {} ELSE {a \cup b : a \in Partials(t, t[S].l), b \in Partials(t, t[S].r)}
RECURSIVE Text(_, _)
Text(t, S) == IF Cardinality(S) = 1 THEN "t" \o <<"0", "1", "2", "3", "4", "5", "6", "7">>[(CHOOSE x \in S : TRUE) + 1]
              ELSE "@ " \o Text(t, t[S].l) \o " " \o Text(t, t[S].r)
=============================================================================
