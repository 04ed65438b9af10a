----------------------------- MODULE MinimizeMC -----------------------------
(* Plans built operator by operator over one or two tables, and their minimised form: it still runs, keeps the schema
   of its top, keeps nothing that is not needed, and is what Minimal describes. *)
EXTENDS PlanTree
CONSTANT N
X == <<"r", "x">>
Y == <<"r", "y">>
Z == <<"s", "z">>
E(text, ids, alias) == <<text, ids, alias, IF Len(ids) = 1 /\ ids[1][1] \o "." \o ids[1][2] = text THEN ids[1] ELSE <<"", text>>>>
Lone(id) == [ids |-> <<id>>, text |-> (id[1] \o "." \o id[2])]
Exprs(S) ==     \* what can be computed from a schema: its attributes, a sum, and a sum of aliases
    {<<S[i][1] \o (IF S[i][1] = "" THEN "" ELSE ".") \o S[i][2], <<Id(S[i])>>, "", Id(S[i])>> : i \in 1..Len(S)}
    \cup {<<"sum", <<X, Y>>, "", <<"", "sum">>>> : k \in {n \in {1} : {X, Y} \subseteq Ids(S)}}
    \cup {<<"sum", <<X, Y>>, "a", <<"", "sum">>>> : k \in {n \in {1} : {X, Y} \subseteq Ids(S)}}
Attr(e) == IF e[3] # "" THEN <<"", e[3], 0, 0>> ELSE <<e[4][1], e[4][2], 0, 0>>
SchemaOf(es) == [i \in 1..Len(es) |-> Attr(es[i])]
Unambiguous(S) == Cardinality(Ids(S)) = Len(S)
VARIABLES t
Scans == {<<"scan", <<<<"r", "x", 0, 0>>, <<"r", "y", 0, 0>>>>, "r", "r">>}
S2 == <<"scan", <<<<"s", "z", 0, 0>>>>, "s", "s">>
Init == t \in Scans
RECURSIVE Depth(_)
Depth(u) == IF u[1] = "scan" THEN 0 ELSE IF u[1] = "join" THEN 1 ELSE 1 + Depth(Below(u))
Lit(e) == <<0, e[1], e[2], e[4]>>
Lists(S) == {<<e>> : e \in Exprs(S)} \cup {<<e, f>> : e, f \in Exprs(S)}
Next == Depth(t) < N /\
    \/ \E es \in Lists(t[2]) : Unambiguous(SchemaOf(es)) /\ t' = <<"project", SchemaOf(es), es, t>>
    \/ \E e \in Exprs(t[2]) : t' = <<"sort", t[2], <<e>>, t>>
    \/ \E e \in Exprs(t[2]) : t' = <<"filter", t[2], <<<<Lit(e)>>>>, t>>
    \/ t' = <<"limit", t[2], 1, 0, t>>
    \/ t[1] = "scan" /\ t' = <<"join", t[2] \o S2[2], <<<<Lit(<<"eq", <<X, Z>>, "", <<"", "eq">>>>)>>>>, <<t, S2>>>>
    \/ \E e \in {x \in Exprs(t[2]) : x[3] = ""}, g \in Exprs(t[2]) : LET ag == <<"min " \o g[1], <<<<g[4], g[2]>>>>>> IN
        \/ t' = <<"group", <<<<"", e[4][2], 0, 0>>, <<"", ag[1], 0, 0>>>>, <<e>>, <<ag>>, t>>
        \/ t' = <<"agg", <<<<"", ag[1], 0, 0>>>>, <<ag>>, t>>
Spec == Init /\ [][Next]_t

Pick(S, req) == SelectSeq(S, LAMBDA e : Id(e) \in req)
RECURSIVE Min(_, _, _)
Min(u, req, top) ==
    LET S == u[2]  c == Below(u)  need == IF top THEN Ids(S) ELSE req  P == Pick(S, need) IN
    CASE u[1] = "scan" -> <<"scan", P, u[3], u[4]>>
      [] u[1] = "filter" -> <<"filter", P, u[3], Min(c, need \cup NeedsClauses(u[3], c[2]), FALSE)>>
      [] u[1] = "join" -> <<"join", P, u[3], [i \in 1..Len(c) |-> Min(c[i], (need \cup NeedsClauses(u[3], S)) \cap Ids(c[i][2]), FALSE)]>>
      [] u[1] = "sort" -> <<"sort", P, u[3], Min(c, need \cup UNION {Needs(x[4], x[2], c[2]) : x \in Range(u[3])}, FALSE)>>
      [] u[1] = "limit" -> <<"limit", P, u[3], u[4], Min(c, req, top)>>
      [] u[1] = "project" -> LET es == SelectSeq(u[3], LAMBDA e : Id(Attr(e)) \in need) IN
            <<"project", P, es, Min(c, UNION {Needs(x[4], x[2], c[2]) : x \in Range(es)}, FALSE)>>
      [] u[1] = "group" -> LET as == SelectSeq(u[4], LAMBDA a : <<"", a[1]>> \in need)  P2 == Pick(S, need \cup {Id(S[1])}) IN
            <<"group", P2, u[3], as, Min(c, UNION {Needs(x[4], x[2], c[2]) : x \in Range(u[3])} \cup NeedsAggs(Range(as), c[2]), FALSE)>>
      [] u[1] = "agg" -> LET as == SelectSeq(u[3], LAMBDA a : <<"", a[1]>> \in need) IN
            <<"agg", P, as, Min(c, NeedsAggs(Range(as), c[2]), FALSE)>>
M == Min(t, {}, TRUE)
RECURSIVE Lean(_)         \* every attribute below is used right above
Lean(u) == LET c == Below(u) IN
    CASE u[1] = "scan" -> TRUE
      [] u[1] = "limit" -> u[2] = c[2] /\ Lean(c)
      [] u[1] = "filter" -> Ids(c[2]) = Ids(u[2]) \cup NeedsClauses(u[3], c[2]) /\ Lean(c)
      [] u[1] = "project" -> Ids(c[2]) = UNION {Needs(x[4], x[2], c[2]) : x \in Range(u[3])} \/ c[1] = "group"
      [] OTHER -> TRUE
Safe == Runs(t) => Runs(M)
Top == M[2] = t[2]
Agrees == Minimal(t, M, {}, TRUE)
Tight == Lean(M)
=============================================================================
