----------------------------- MODULE PlanTreeMC -----------------------------
(* A planner that may put a clause anywhere, several times, or nowhere: whatever plan is valid computes the answer.
   Two sources of one truth value each; the tables hold all three values. *)
EXTENDS PlanTree
A == <<"a", "x">>
B == <<"b", "x">>
Atom == [n \in {"a", "b", "ab"} |-> CASE n = "a" -> <<"a", <<A>>>> [] n = "b" -> <<"b", <<B>>>> [] n = "ab" -> <<"ab", <<A, B>>>>]
Truth(v, w) == [n \in {"a", "b", "ab"} |-> CASE n = "a" -> v [] n = "b" -> w [] n = "ab" -> Equal(v, w)]
F(n) == <<"atom", n>>
Formulas == {<<"none">>, F("a"), <<"not", F("b")>>, <<"and", F("a"), F("ab")>>, <<"or", F("a"), <<"not", F("b")>>>>,
             <<"not", <<"or", F("a"), F("b")>>>>, <<"and", F("ab"), <<"or", F("a"), F("b")>>>>, <<"eq", F("a"), F("b")>>}
Literals == {<<n, x, Atom[x][2]>> : n \in 0..1, x \in {"a", "b", "ab"}}
Candidates == {<<x>> : x \in Literals} \cup {<<x, y>> : x, y \in {z \in Literals : z[2] # "ab"}} \cup {<<x, <<0, "ab", <<A, B>>>>>> : x \in Literals}
Places == {"a", "b", "join", "top"}
CONSTANT N
VARIABLES f, cs, at
Scan(n) == <<"scan", <<<<n, "x", 0, 0>>>>, n, n>>
RECURSIVE Put(_, _)
Put(p, i) == IF i > Len(cs) THEN <<>> ELSE IF p \in at[i] THEN <<cs[i]>> \o Put(p, i + 1) ELSE Put(p, i + 1)
Filtered(c, t) == IF c = <<>> THEN t ELSE <<"filter", t[2], c, t>>
Plan == LET j == <<"join", <<<<"a", "x", 0, 0>>, <<"b", "x", 0, 0>>>>, Put("join", 1), <<Filtered(Put("a", 1), Scan("a")), Filtered(Put("b", 1), Scan("b"))>>>>
        IN Filtered(Put("top", 1), j)
Query == [from |-> <<<<"a", "table", "a">>, <<"b", "table", "b">>>>, where |-> f, wsubs |-> <<>>, ssubs |-> <<>>]
Init == f \in Formulas /\ cs = <<>> /\ at = <<>>
Next == Len(cs) < N /\ \E c \in Candidates, p \in {q \in SUBSET Places : Cardinality(q) < 3} : cs' = Append(cs, c) /\ at' = Append(at, p) /\ UNCHANGED f
Spec == Init /\ [][Next]_<<f, cs, at>>
\* what the plan computes: rows over the sources below, or -1 if a clause asks for what is not there
RECURSIVE Rows(_)
Pass(c, rows) == {r \in rows : \A i \in 1..Len(c) : Holds(c[i], Truth(r[1], r[2]))}
Computable(c, S) == \A i \in 1..Len(c), j \in 1..2 : j <= Len(c[i]) => Range(c[i][j][3]) \subseteq Ids(S)
Rows(t) == CASE t[1] = "scan" -> IF t[3] = "a" THEN {<<v, 9>> : v \in 0..2} ELSE {<<9, w>> : w \in 0..2}
             [] t[1] = "join" -> Pass(t[3], {<<r[1], s[2]>> : r \in Rows(t[4][1]), s \in Rows(t[4][2])})
             [] t[1] = "filter" -> Pass(t[3], Rows(t[4]))
RECURSIVE CanRun(_)
CanRun(t) == CASE t[1] = "filter" -> Computable(t[3], Below(t)[2]) /\ CanRun(Below(t))
               [] t[1] = "join" -> Computable(t[3], t[2]) /\ \A i \in 1..2 : CanRun(t[4][i])
               [] OTHER -> TRUE
Answer == {r \in (0..2) \X (0..2) : Eval(f, Truth(r[1], r[2])) = 2}
Right == ValidCore(Query, Plan) => CanRun(Plan) /\ Rows(Plan) = Answer
\* and what is right is accepted, unless a clause occurs twice or asks for more than it needs
Used == SelectSeq([i \in 1..Len(cs) |-> IF at[i] = {} THEN <<>> ELSE cs[i]], LAMBDA c : c # <<>>)
Accepted == (CanRun(Plan) /\ Rows(Plan) = Answer /\ (\A i \in 1..Len(cs) : Cardinality(at[i]) < 2)
             /\ {x[2] : x \in UNION {Range(Used[i]) : i \in 1..Len(Used)}} \subseteq Atoms(f) /\ Equivalent(f, Used) /\ Distinct(Used)) => ValidCore(Query, Plan)
=============================================================================
