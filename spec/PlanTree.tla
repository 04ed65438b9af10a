------------------------------ MODULE PlanTree ------------------------------
(* Logical plans of SELECT statements.
   Schemas are sequences of <<prefix, name, not null, unique>>.  Plans:
     <<"scan", S, alias, table>>  <<"filter", S, clauses, child>>  <<"join", S, clauses, children>>
     <<"project", S, expressions, child>>  <<"group", S, keys, aggregates, child>>  <<"agg", S, aggregates, child>>
     <<"sort", S, keys, child>>  <<"limit", S, n, offset, child>>  <<"nothing", S>>
   A literal is <<negative?, text, identifiers>>, an expression <<text, identifiers, alias, own identifier>>.
   A statement is a record; its sources are <<alias, "table", table>> or <<alias, "query", statement>>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(s) == {s[i] : i \in 1..Len(s)}
Id(e) == <<e[1], e[2]>>
Ids(S) == {Id(S[i]) : i \in 1..Len(S)}

(*----- formulas, three-valued: 0 false, 1 unknown, 2 true -----*)
Neg(a) == 2 - a
And(a, b) == IF a < b THEN a ELSE b
Or(a, b) == IF a < b THEN b ELSE a
Equal(a, b) == IF a = 1 \/ b = 1 THEN 1 ELSE IF a = b THEN 2 ELSE 0
RECURSIVE Atoms(_)
Atoms(f) == CASE f[1] = "none" -> {} [] f[1] = "atom" -> {f[2]} [] f[1] = "not" -> Atoms(f[2]) [] OTHER -> Atoms(f[2]) \cup Atoms(f[3])
RECURSIVE Occurrences(_)
Occurrences(f) == CASE f[1] = "none" -> 0 [] f[1] = "atom" -> 1 [] f[1] = "not" -> Occurrences(f[2]) [] OTHER -> Occurrences(f[2]) + Occurrences(f[3])
RECURSIVE Once(_)                    \* no clause of the normal form can occur twice
Once(f) == Cardinality(Atoms(f)) = Occurrences(f)
RECURSIVE HasEqual(_)
HasEqual(f) == CASE f[1] \in {"none", "atom"} -> FALSE [] f[1] = "not" -> HasEqual(f[2]) [] f[1] \in {"eq", "ne"} -> TRUE [] OTHER -> HasEqual(f[2]) \/ HasEqual(f[3])
RECURSIVE Eval(_, _)
Eval(f, v) == CASE f[1] = "none" -> 2 [] f[1] = "atom" -> v[f[2]] [] f[1] = "not" -> Neg(Eval(f[2], v))
                [] f[1] = "and" -> And(Eval(f[2], v), Eval(f[3], v)) [] f[1] = "or" -> Or(Eval(f[2], v), Eval(f[3], v))
                [] f[1] = "eq" -> Equal(Eval(f[2], v), Eval(f[3], v)) [] f[1] = "ne" -> Neg(Equal(Eval(f[2], v), Eval(f[3], v)))
Literal(x, v) == IF x[1] = 1 THEN Neg(v[x[2]]) ELSE v[x[2]]
Holds(c, v) == \E i \in 1..Len(c) : Literal(c[i], v) = 2
Constant == [x \in {"TRUE", "FALSE", "NULL"} |-> CASE x = "TRUE" -> 2 [] x = "FALSE" -> 0 [] x = "NULL" -> 1]
Assignments(A) == {v \in [A -> 0..2] : \A a \in A \cap DOMAIN Constant : v[a] = Constant[a]}
\* the clauses, taken together, are true exactly where the formula is
Equivalent(f, cs) ==
    /\ \A i \in 1..Len(cs) : {cs[i][j][2] : j \in 1..Len(cs[i])} \subseteq Atoms(f)
    /\ \A v \in Assignments(Atoms(f)) : (Eval(f, v) = 2) = (\A i \in 1..Len(cs) : Holds(cs[i], v))
Sources(c) == UNION {{x[1] : x \in Range(c[j][3])} : j \in 1..Len(c)}
Distinct(cs) == \A i, j \in 1..Len(cs) : Range(cs[i]) = Range(cs[j]) /\ Sources(cs[i]) # {} => i = j

(*----- the sources and clauses of the lower part of a plan -----*)
Core(t) == t[1] \in {"scan", "filter", "join"}
RECURSIVE Leaves(_), LeavesOf(_, _)
LeavesOf(ts, i) == IF i > Len(ts) THEN <<>> ELSE Leaves(ts[i]) \o LeavesOf(ts, i + 1)
Leaves(t) == CASE t[1] = "filter" -> Leaves(t[4]) [] t[1] = "join" -> LeavesOf(t[4], 1) [] OTHER -> <<t>>
RECURSIVE Clauses(_), ClausesOf(_, _)
ClausesOf(ts, i) == IF i > Len(ts) THEN <<>> ELSE Clauses(ts[i]) \o ClausesOf(ts, i + 1)
Clauses(t) == CASE t[1] = "filter" -> t[3] \o Clauses(t[4]) [] t[1] = "join" -> t[3] \o ClausesOf(t[4], 1) [] OTHER -> <<>>
\* the result of a statement without a name: what is grouped before HAVING
Anonymous(t) == t[1] \in {"group", "agg"}
Name(t) == IF t[1] = "scan" THEN t[3] ELSE IF Anonymous(t) THEN "" ELSE IF Len(t[2]) = 0 THEN "?" ELSE t[2][1][1]
Names(t) == {Name(x) : x \in Range(Leaves(t))}
RECURSIVE Placed(_)
Placed(t) ==
    LET ok(cs) == \A i \in 1..Len(cs) : "" \in Names(t) \/ Sources(cs[i]) \subseteq Names(t) IN
    CASE t[1] = "filter" -> Len(t[3]) > 0 /\ ok(t[3]) /\ Placed(t[4])
      [] t[1] = "join" -> Len(t[4]) > 1 /\ ok(t[3]) /\ \A i \in 1..Len(t[4]) : Placed(t[4][i])
      [] OTHER -> TRUE

(*----- the whole plan -----*)
Grouped(q) == Len(q.group) > 0 \/ Len(q.aggs) > 0
Result(s) == <<s[1], s[2], [s[3] EXCEPT !.select = <<[@[1] EXCEPT ![3] = "$res"]>>]>>     \* a nested query in an expression
Results(ss) == [i \in 1..Len(ss) |-> Result(ss[i])]
Nested(q) == q.having[1] # "none" \/ (Len(q.ssubs) > 0 /\ Grouped(q))
Inner(q) == [q EXCEPT !.having = <<"none">>, !.select = <<>>, !.order = <<>>, !.limit = <<>>, !.hsubs = <<>>, !.ssubs = <<>>]
Outer(q) == [q EXCEPT !.from = <<<<"", "query", Inner(q)>>>>, !.where = q.having, !.having = <<"none">>, !.group = <<>>, !.aggs = <<>>, !.wsubs = q.hsubs, !.hsubs = <<>>]
From(q) == q.from \o Results(q.wsubs) \o Results(q.ssubs)
Below(t) == t[Len(t)]
RECURSIVE Valid(_, _, _)
ValidCore(q, t) ==
    LET L == Leaves(t)  F == From(q)  cs == Clauses(t) IN
    /\ Len(L) = Len(F) /\ Placed(t)
    /\ \A i \in 1..Len(F) : \E j \in 1..Len(L) :                                     \* every source
          /\ Name(L[j]) = F[i][1]
          /\ IF F[i][2] = "table" THEN L[j][1] = "scan" /\ L[j][4] = F[i][3] ELSE L[j][1] # "scan" /\ Valid(F[i][3], L[j], F[i][1])
    /\ \A i, j \in 1..Len(L) : Name(L[i]) = Name(L[j]) => i = j                      \* once
    /\ Equivalent(q.where, cs)
    /\ (Once(q.where) /\ ~HasEqual(q.where) => Distinct(cs))
ValidGroup(q, t) ==
    IF Len(q.group) > 0
    THEN /\ t[1] = "group" /\ Len(t[3]) = Len(q.group)
         /\ \A i \in 1..Len(q.group) : t[3][i][1] = q.group[i][1] /\ t[3][i][3] = q.group[i][3]
         /\ {a[1] : a \in Range(t[4])} = {a[1] : a \in Range(q.aggs)} /\ Len(t[4]) = Cardinality({a[1] : a \in Range(t[4])})
         /\ ValidCore(q, t[5])
    ELSE IF Len(q.aggs) > 0
    THEN /\ t[1] = "agg" /\ {a[1] : a \in Range(t[3])} = {a[1] : a \in Range(q.aggs)} /\ Len(t[3]) = Cardinality({a[1] : a \in Range(t[3])})
         /\ ValidCore(q, t[4])
    ELSE IF Len(From(q)) = 0 THEN t[1] = "nothing" ELSE ValidCore(q, t)
Entry(e) == <<e[1], e[3]>>
\* the attributes of the result: aliases, or the names of columns; within another statement under its alias
Labelled(q, S, prefix) ==
    /\ Len(S) = Len(q.select)
    /\ \A i \in 1..Len(S) : LET e == q.select[i] IN
        /\ e[3] # "" => S[i][2] = e[3]
        /\ e[3] = "" /\ e[4] \in Range(e[2]) => S[i][2] = e[4][2]
        /\ prefix # "" => S[i][1] = prefix
Valid(q0, t0, prefix) ==
    LET q == IF Nested(q0) THEN Outer(q0) ELSE q0
        ordered == Len(q.order) > 0
        limited == Len(q.limit) > 0
        post == (ordered \/ limited) /\ t0[1] = "project"
        t1 == IF post THEN Below(t0) ELSE t0
        t2 == IF limited THEN Below(t1) ELSE t1
        t3 == IF ordered THEN Below(t2) ELSE t2
        list == IF post THEN t0 ELSE t3
    IN IF Len(q.select) = 0 THEN ValidGroup(q, t0)
       ELSE /\ limited => t1[1] = "limit" /\ t1[3] = q.limit[1] /\ t1[4] = q.limit[2]
            /\ ordered => t2[1] = "sort" /\ Len(t2[3]) = Len(q.order) /\ \A i \in 1..Len(q.order) : t2[3][i][1] = q.order[i][1] /\ t2[3][i][3] = q.order[i][3]
            /\ t3[1] = "project"
            /\ IF post
               THEN /\ Len(t0[3]) = Len(q.select)
                    /\ \A i \in 1..Len(q.select) : LET e == q.select[i] IN t0[3][i][1] = IF e[3] # "" THEN e[3] ELSE e[1]
                    /\ \A i \in 1..Len(q.select) : Entry(q.select[i]) \in {Entry(x) : x \in Range(t3[3])}
               ELSE Len(t3[3]) = Len(q.select) /\ \A i \in 1..Len(q.select) : Entry(t3[3][i]) = Entry(q.select[i])
            /\ Labelled(q, list[2], prefix)
            /\ ValidGroup(q, Below(t3))

(*----- minimising the schemas: what an operator has to provide, given what its ancestors need -----*)
\* an expression <<own identifier, identifiers>> is taken from below if it is provided there
Needs(own, ids, S) == IF own \in Ids(S) THEN {own} ELSE {x \in Range(ids) : TRUE}
Own(e) == e[4]
NeedsClauses(cs, S) == UNION {UNION {Needs(x[4], x[3], S) : x \in Range(cs[i])} : i \in 1..Len(cs)}
NeedsAggs(as, S) == UNION {UNION {Needs(x[1], x[2], S) : x \in Range(a[2])} : a \in as}
Keep(S, req, top) == {i \in 1..Len(S) : top \/ Id(S[i]) \in req}
\* does the plan u result from the plan t if the attributes req are needed (all of them at the top)?
RECURSIVE Minimal(_, _, _, _)
Minimal(t, u, req, top) ==
    LET S == t[2]  c == Below(t)  need == IF top THEN Ids(S) ELSE req IN
    /\ t[1] = u[1]
    /\ CASE t[1] = "scan" -> Ids(u[2]) = need /\ u[3] = t[3] /\ u[4] = t[4]
         [] t[1] = "filter" -> Ids(u[2]) = need /\ u[3] = t[3] /\ Minimal(c, Below(u), need \cup NeedsClauses(t[3], c[2]), FALSE)
         [] t[1] = "join" -> /\ Ids(u[2]) = need /\ u[3] = t[3] /\ Len(c) = Len(u[4])
                             /\ \A i \in 1..Len(c) : Minimal(c[i], u[4][i], (need \cup NeedsClauses(t[3], S)) \cap Ids(c[i][2]), FALSE)
         [] t[1] = "sort" -> Ids(u[2]) = need /\ u[3] = t[3] /\ Minimal(c, Below(u), need \cup UNION {Needs(x[4], x[2], c[2]) : x \in Range(t[3])}, FALSE)
         [] t[1] = "limit" -> Ids(u[2]) = need /\ u[3] = t[3] /\ u[4] = t[4] /\ Minimal(c, Below(u), req, top)
         [] t[1] = "project" -> LET k == Keep(S, req, top) IN
                /\ u[3] = SelectSeq(t[3], LAMBDA e : \E i \in k : t[3][i] = e) /\ Ids(u[2]) = {Id(S[i]) : i \in k} /\ Len(u[2]) = Len(u[3])
                /\ c[1] # "nothing" => Minimal(c, Below(u), UNION {Needs(Own(t[3][i]), t[3][i][2], c[2]) : i \in k}, FALSE)
         [] t[1] = "group" -> LET a == {x \in Range(t[4]) : top \/ <<"", x[1]>> \in req} IN
                /\ u[3] = t[3] /\ Range(u[4]) = a /\ Len(u[4]) = Cardinality(a)
                /\ Ids(u[2]) = {Id(S[i]) : i \in 1..Len(t[3])} \cup {<<"", x[1]>> : x \in a}
                /\ Minimal(c, Below(u), UNION {Needs(Own(x), x[2], c[2]) : x \in Range(t[3])} \cup NeedsAggs(a, c[2]), FALSE)
         [] t[1] = "agg" -> LET a == {x \in Range(t[3]) : top \/ <<"", x[1]>> \in req} IN
                /\ Range(u[3]) = a /\ Len(u[3]) = Cardinality(a) /\ Ids(u[2]) = {<<"", x[1]>> : x \in a}
                /\ Minimal(c, Below(u), NeedsAggs(a, c[2]), FALSE)
         [] OTHER -> FALSE
\* every expression can be computed from what is provided below
RECURSIVE Runs(_)
Runs(t) ==
    LET c == Below(t) IN
    CASE t[1] \in {"scan", "nothing"} -> TRUE
      [] t[1] = "filter" -> NeedsClauses(t[3], c[2]) \subseteq Ids(c[2]) /\ Runs(c)
      [] t[1] = "join" -> LET S == UNION {Ids(c[i][2]) : i \in 1..Len(c)} IN
                          NeedsClauses(t[3], <<>>) \subseteq S /\ \A i \in 1..Len(c) : Runs(c[i])
      [] t[1] = "limit" -> Runs(c)
      [] t[1] \in {"sort", "project"} -> (\A i \in 1..Len(t[3]) : Needs(Own(t[3][i]), t[3][i][2], c[2]) \subseteq Ids(c[2])) /\ Runs(c)
      [] t[1] = "group" -> /\ \A i \in 1..Len(t[3]) : Needs(Own(t[3][i]), t[3][i][2], c[2]) \subseteq Ids(c[2])
                           /\ NeedsAggs(Range(t[4]), c[2]) \subseteq Ids(c[2]) /\ Runs(c)
      [] t[1] = "agg" -> NeedsAggs(Range(t[3]), c[2]) \subseteq Ids(c[2]) /\ Runs(c)
\* claims about attributes passed on from below: never stronger than below, and not unique behind a join
RECURSIVE Sound(_)
Children(t) == IF t[1] \in {"scan", "nothing"} THEN {} ELSE IF t[1] = "join" THEN Range(t[4]) ELSE {Below(t)}
Sound(t) == \A c \in Children(t) :
    /\ Sound(c)
    /\ t[1] \in {"filter", "join", "sort", "limit"} =>
       \A i \in 1..Len(t[2]), j \in 1..Len(c[2]) : Id(t[2][i]) = Id(c[2][j]) =>
          (t[2][i][3] = 1 => c[2][j][3] = 1) /\ (t[2][i][4] = 1 => (c[2][j][4] = 1 /\ t[1] # "join"))
=============================================================================
