------------------------------ MODULE SqlTrace ------------------------------
(* A database of the semantics of Sql.tla under statements: CREATE TABLE, INSERT, and queries.  A trace lists the statements
   (ops) and, one for one, what came of them (ev).
     ["other"]                    a statement that has to succeed and does not concern the tables' contents
     ["create", t, cols]          cols: sequence of [type, nullable]; type one of "i","d","f","s","b","D","T" with parameters
     ["insert", t, tuples]        items ["x", expression], ["null"], ["default"]
     ["reject"]                   a statement that has to be refused
     ["select", q]                a query, see Sql                                                                          *)
EXTENDS Sql, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, db, cols
Ops == Traces[tid].ops
Ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1 /\ db = <<>> /\ cols = <<>>

\* the value as stored in a column of the type
Convert(ty, v) ==
    IF IsNull(v) THEN v
    ELSE CASE ty[1] = "d" -> <<4, Trunc(ty[2], Units(v)), ty[2]>>
           [] ty[1] = "f" -> <<7, Units(v)>>
           [] ty[1] = "s" -> IF Len(v) > ty[2] + 1 THEN SubSeq(v, 1, ty[2] + 1) ELSE v
           [] OTHER -> v
Item(col, it) == IF it[1] = "x" THEN Convert(col[1], Eval(db, it[2], <<>>, <<>>)) ELSE NULL
Stored(t, tup) == [i \in 1..Len(tup) |-> Item(cols[t][i], tup[i])]
Acceptable(t, tup) == \A i \in 1..Len(tup) : cols[t][i][2] = 1 \/ ~IsNull(Item(cols[t][i], tup[i]))

Op == Ops[l]
E == Ev[l]
\* may the statement Op have come out as E?
Ok == CASE Op[1] = "create" -> E[1] = "ok"
        [] Op[1] = "insert" -> LET acc == \A i \in 1..Len(Op[3]) : Acceptable(Op[2], Op[3][i]) IN E[1] = (IF acc THEN "ok" ELSE "err")
        [] Op[1] = "select" -> E[1] = "rows" /\ IsAnswer(db, Op[2], E[2])
        [] Op[1] = "reject" -> E[1] = "err"
        [] OTHER -> E[1] = "ok"
\* what it changes; what was refused changes nothing
Create == Op[1] = "create" /\ db' = (Op[2] :> <<>>) @@ db /\ cols' = (Op[2] :> Op[3]) @@ cols
Insert == /\ Op[1] = "insert" /\ E[1] = "ok"
          /\ db' = [db EXCEPT ![Op[2]] = @ \o [i \in 1..Len(Op[3]) |-> Stored(Op[2], Op[3][i])]]
          /\ UNCHANGED cols
Keep == Op[1] # "create" /\ ~(Op[1] = "insert" /\ E[1] = "ok") /\ UNCHANGED <<db, cols>>
Next == l <= Len(Ev) /\ (Create \/ Insert \/ Keep) /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, db, cols>>
NoReject == l <= Len(Ev) => (l <= Len(Ops) /\ Ok)
=============================================================================
