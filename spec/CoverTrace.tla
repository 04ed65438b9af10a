----------------------------- MODULE CoverTrace -----------------------------
(* <<"ops", <<<<number, pattern, costs, conditions of children, own condition, last>>, ...>>>>, <<"plan", logical plan>>,
   <<"table", entries of every operator>>, <<"best", physical plan>> or <<"none">>
   A physical plan is <<number, matched operators, cost, physical plans>>. *)
EXTENDS Cover, SequencesExt, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, ops, plan, tab
Ev == Traces[tid].ev
W == <<"W">>
One(k) == <<k, <<>> >>
Filter(p) == <<"filter", <<p>> >>
Pattern == << One("scan"), One("filter"), Filter(W), One("join"), <<"join", <<W, W>> >>, <<"join", <<Filter(W), W>> >>, <<"join", <<W, Filter(One("scan"))>> >>,
              Filter(One("join")), <<"project", <<Filter(One("scan"))>> >>, One("project"), One("limit"), <<"limit", << <<"sort", <<W>> >> >> >>, One("sort"),
              <<"join", << <<"join", <<W, W>> >>, <<"limit", <<W>> >> >> >>, <<"join", <<One("scan"), W>> >>, Filter(Filter(W)) >>
Op(e) == [p |-> Pattern[e[2] + 1], cost |-> [i \in 0..31 |-> e[3][i + 1]], pre |-> [i \in 0..7 |-> ToSet(e[4][i + 1])], post |-> ToSet(e[5]), last |-> e[6] = 1]
Ops(es) == [k \in {es[i][1] : i \in 1..Len(es)} |-> Op(es[CHOOSE i \in 1..Len(es) : es[i][1] = k])]
\* the table of the cheapest coverings, bottom-up: operators are numbered in post-order
Node(o, i) == CHOOSE x \in Operators(o) : x[2] = i
Entries(xs, o, t) == Cheapest(UNION {UNION {{Yield(x, o, es) : es \in {s \in Choices([i \in 1..Len(m[2]) |-> t[m[2][i][2]]]) : Fits(x, s, m[3])}} : m \in Matches(x.p, o)} : x \in xs})
RECURSIVE Tables(_, _, _)
Tables(xs, o, i) == IF i < 0 THEN <<>> ELSE LET t == TLCEval(Tables(xs, o, i - 1)) IN TLCEval(t @@ (i :> Entries(xs, Node(o, i), t)))
\* the condition and cost of a physical plan for the operator o; {} if it is none
RECURSIVE Worth(_, _)
Worth(p, o) ==
    IF p[1] \notin DOMAIN ops THEN {}
    ELSE LET x == ops[p[1]]
             ms == {m \in Matches(x.p, o) : m[1] = p[2] /\ Len(m[2]) = Len(p[4])}
         IN UNION {{Yield(x, o, es) : es \in {s \in Choices([i \in 1..Len(p[4]) |-> IF p[4][i][2][1] = m[2][i][2] THEN Worth(p[4][i], m[2][i]) ELSE {}]) : Fits(x, s, m[3])}}
                   : m \in ms}
Entry(e, o) == LET v == <<ToSet(e[1]), e[2]>> IN e[3][2][1] = o[2] /\ e[3][3] = e[2] /\ v \in Worth(e[3], o) /\ Cardinality(Worth(e[3], o)) = 1
Init == tid \in 1..Len(Traces) /\ l = 1 /\ ops = <<>> /\ plan = <<>> /\ tab = <<>>
A(k) == Ev[l][k]
Load == CASE A(1) = "ops" -> ops' = TLCEval(Ops(A(2))) /\ UNCHANGED <<plan, tab>>
          [] A(1) = "plan" -> plan' = A(2) /\ tab' = TLCEval(Tables({ops[k] : k \in DOMAIN ops}, A(2), A(2)[2])) /\ UNCHANGED ops
          [] OTHER -> UNCHANGED <<ops, plan, tab>>
Holds == CASE A(1) \in {"ops", "plan"} -> TRUE
           [] A(1) = "table" -> /\ Len(A(2)) = Cardinality(DOMAIN tab)
                                /\ \A i \in 1..Len(A(2)) : LET o == Node(plan, i - 1)  es == A(2)[i] IN
                                     /\ \A k \in 1..Len(es) : Entry(es[k], o)
                                     /\ {<<ToSet(es[k][1]), es[k][2]>> : k \in 1..Len(es)} = tab[i - 1]
                                     /\ Len(es) = Cardinality(tab[i - 1])
           [] A(1) = "best" -> /\ tab[plan[2]] # {}
                               /\ \E v \in Worth(A(2), plan) : v[2] = A(2)[3] /\ \A w \in tab[plan[2]] : w[2] >= v[2]
           [] A(1) = "none" -> tab[plan[2]] = {}
           [] OTHER -> FALSE
Next == l <= Len(Ev) /\ Load /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, ops, plan, tab>>
NoReject == l <= Len(Ev) => Holds
=============================================================================
