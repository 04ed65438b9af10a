------------------------------ MODULE VersTrace ------------------------------
(* A multi-versioned database under transactions.  Every row carries the start of the transaction that inserted it, and the
   start of the transaction from which on it is superseded (-1: never).  A trace lists operations (ops) and what came of them.
     ["other"]                      succeeds, and does not concern tables or transactions
     ["create", t, cols]            as in SqlTrace
     ["begin", x, time]             transaction x, started at the time
     ["insert", x, t, tuples]       by transaction x; x = 0: in a transaction of its own, started after all others of the shell
     ["supersede", t, k, time]      row number k (from 1) of t is superseded from the time on
     ["select", x, q]               by transaction x; x = 0 as above
     ["shell"]                      another command of the shell, in a transaction of its own                                *)
EXTENDS Sql, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, tabs, cols, txns, clock
vars == <<tid, l, tabs, cols, txns, clock>>
Ops == Traces[tid].ops
Ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1 /\ tabs = <<>> /\ cols = <<>> /\ txns = <<>> /\ clock = 0

Convert(ty, v) ==
    IF IsNull(v) THEN v
    ELSE CASE ty[1] = "d" -> <<4, Trunc(ty[2], Units(v)), ty[2]>>
           [] ty[1] = "f" -> <<7, Units(v)>>
           [] ty[1] = "s" -> IF Len(v) > ty[2] + 1 THEN SubSeq(v, 1, ty[2] + 1) ELSE v
           [] OTHER -> v
Item(col, it) == IF it[1] = "x" THEN Convert(col[1], Eval(<<>>, it[2], <<>>, <<>>)) ELSE NULL
Stored(t, tup) == [i \in 1..Len(tup) |-> Item(cols[t][i], tup[i])]

\* what a transaction started at time s sees: what was inserted up to its start and is not superseded before or at its start
Visible(v, s) == v.from <= s /\ (v.to = -1 \/ v.to > s)
View(s) == [t \in DOMAIN tabs |-> LET V == SelectSeq(tabs[t], LAMBDA v : Visible(v, s)) IN [i \in 1..Len(V) |-> V[i].row]]
Start(x) == IF x = 0 THEN clock ELSE txns[x]

Op == Ops[l]
E == Ev[l]
\* may the operation have come out as E?
Ok == CASE Op[1] = "select" -> E[1] = "rows" /\ \E D \in {TLCEval(View(Start(Op[2])))} : IsAnswer(D, Op[3], E[2])
        [] OTHER -> E[1] = "ok"
\* what it changes
Tick(x) == clock' = IF x = 0 THEN clock + 1 ELSE clock
Other == Op[1] = "other" /\ UNCHANGED <<tabs, cols, txns, clock>>
Shell == Op[1] = "shell" /\ Tick(0) /\ UNCHANGED <<tabs, cols, txns>>
Create == Op[1] = "create" /\ tabs' = (Op[2] :> <<>>) @@ tabs /\ cols' = (Op[2] :> Op[3]) @@ cols /\ UNCHANGED <<txns, clock>>
Begin == Op[1] = "begin" /\ txns' = (Op[2] :> Op[3]) @@ txns /\ UNCHANGED <<tabs, cols, clock>>
Insert == /\ Op[1] = "insert" /\ Tick(Op[2])
          /\ tabs' = [tabs EXCEPT ![Op[3]] = @ \o [i \in 1..Len(Op[4]) |-> [from |-> Start(Op[2]), to |-> -1, row |-> Stored(Op[3], Op[4][i])]]]
          /\ UNCHANGED <<cols, txns>>
Supersede == Op[1] = "supersede" /\ tabs' = [tabs EXCEPT ![Op[2]][Op[3]].to = Op[4]] /\ UNCHANGED <<cols, txns, clock>>
Select == Op[1] = "select" /\ Tick(Op[2]) /\ UNCHANGED <<tabs, cols, txns>>
Next == l <= Len(Ev) /\ (Other \/ Shell \/ Create \/ Begin \/ Insert \/ Supersede \/ Select) /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
NoReject == l <= Len(Ev) => (l <= Len(Ops) /\ Ok)
==============================================================================
