-------------------------------- MODULE Cnf --------------------------------
(* Boolean formulas and conjunctive normal forms in three-valued logic.  Truth values: 0 false, 1 unknown (NULL), 2 true.
   Formulas are the trees of Grammar.tla; whatever is no connective is an atom.  A normal form is a sequence of clauses, a
   clause a sequence of literals <<negative?, atom>>. *)
EXTENDS Integers, Sequences, FiniteSets
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Neg(a) == 2 - a
Equal(a, b) == IF a = 1 \/ b = 1 THEN 1 ELSE IF a = b THEN 2 ELSE 0
\* bools: the names of the Boolean columns; = and != of anything else are atoms
IsBool(e, bools) == CASE e[1] = "d" -> e[3] \in bools
                      [] e[1] = "k" -> e[2] \in {"TK_True", "TK_False"}
                      [] e[1] = "u" -> e[2] = "NOT"
                      [] e[1] = "b" -> e[2] \notin {"+", "-", "*", "/", "%", ".."}
                      [] e[1] = "f" -> e[2][3] = "ISNULL"
                      [] OTHER -> FALSE
Connective(e, bools) == e[1] = "b" /\ ((e[2] \in {"AND", "OR"} \/ (e[2] \in {"=", "!="} /\ IsBool(e[3], bools) /\ IsBool(e[4], bools))))
RECURSIVE Atoms(_, _)
Atoms(e, bools) == IF e[1] = "u" /\ e[2] = "NOT" THEN Atoms(e[3], bools)
                   ELSE IF Connective(e, bools) THEN Atoms(e[3], bools) \cup Atoms(e[4], bools)
                   ELSE {e}
RECURSIVE Eval(_, _, _)
Eval(e, bools, v) ==
    IF e[1] = "u" /\ e[2] = "NOT" THEN Neg(Eval(e[3], bools, v))
    ELSE IF Connective(e, bools) THEN LET a == Eval(e[3], bools, v)  b == Eval(e[4], bools, v) IN
            CASE e[2] = "AND" -> Min2(a, b) [] e[2] = "OR" -> Max2(a, b) [] e[2] = "=" -> Equal(a, b) [] e[2] = "!=" -> Neg(Equal(a, b))
    ELSE v[e]
Literal(x, v) == IF x[1] = 1 THEN Neg(v[x[2]]) ELSE v[x[2]]
RECURSIVE Clause(_, _, _)
Clause(c, i, v) == IF i > Len(c) THEN 0 ELSE Max2(Literal(c[i], v), Clause(c, i + 1, v))
RECURSIVE Form(_, _, _)
Form(f, i, v) == IF i > Len(f) THEN 2 ELSE Min2(Clause(f[i], 1, v), Form(f, i + 1, v))
FormAtoms(f) == UNION {{f[i][j][2] : j \in 1..Len(f[i])} : i \in 1..Len(f)}
Fixed(a, x) == a[1] = "k" => x = IF a[2] = "TK_True" THEN 2 ELSE IF a[2] = "TK_False" THEN 0 ELSE 1
\* every assignment of truth values to the atoms
Values(A) == {v \in [A -> 0..2] : \A a \in A : Fixed(a, v[a])}

----------------------------------------------------------------------------
(* The conversion: distribute, negate by De Morgan. *)
RECURSIVE Cross(_, _, _)
Cross(f, g, k) == IF k > Len(f) * Len(g) THEN <<>>
                  ELSE <<f[(k - 1) \div Len(g) + 1] \o g[((k - 1) % Len(g)) + 1]>> \o Cross(f, g, k + 1)
RECURSIVE ToCnf(_, _, _)
ToCnf(e, neg, bools) ==
    LET A(n) == ToCnf(e[3], n, bools)
        B(n) == ToCnf(e[4], n, bools) IN
    IF e[1] = "u" /\ e[2] = "NOT" THEN A(~neg)
    ELSE IF ~Connective(e, bools) THEN <<<<<<IF neg THEN 1 ELSE 0, e>>>>>>
    ELSE IF e[2] \in {"AND", "OR"} THEN IF (e[2] = "AND") # neg THEN A(neg) \o B(neg) ELSE Cross(A(neg), B(neg), 1)
    ELSE IF (e[2] = "!=") # neg THEN Cross(A(FALSE), B(FALSE), 1) \o Cross(A(TRUE), B(TRUE), 1)
    ELSE Cross(A(TRUE), B(FALSE), 1) \o Cross(B(TRUE), A(FALSE), 1)
=============================================================================
