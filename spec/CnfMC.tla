------------------------------- MODULE CnfMC -------------------------------
(* The conversion preserves meaning, for all formulas of depth 2 over three atoms and a constant. *)
EXTENDS Cnf
B == {"x", "y", "z"}
F0 == {<<"d", "", n>> : n \in B} \cup {<<"k", "TK_True", "TRUE">>, <<"k", "TK_Null", "NULL">>}
Step(F, G) == F \cup {<<"u", "NOT", f>> : f \in F} \cup {<<"b", o, f, g>> : o \in {"AND", "OR", "=", "!="}, f \in F, g \in G}
F1 == Step(F0, F0)
VARIABLE e
Init == e \in Step(F1, F0)
Next == UNCHANGED e
Spec == Init /\ [][Next]_e
Preserves == LET f == ToCnf(e, FALSE, B)  g == ToCnf(e, TRUE, B) IN
             \A v \in Values(Atoms(e, B)) : Form(f, 1, v) = Eval(e, B, v) /\ Form(g, 1, v) = Neg(Eval(e, B, v))
=============================================================================
