------------------------------ MODULE CardTrace ------------------------------
(* <<"read", verdict, reported, the whole file is unusable, entries>>; <<"est", estimator, size, operation>> *)
EXTENDS Card, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, table, models
Ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1 /\ table = <<>> /\ models = <<>>
Model(t, ms, o) ==
    CASE o[1] = "scan" -> Scan(t, o[2], o[3])
      [] o[1] = "filter" -> ms[o[2]]
      [] o[1] = "limit" -> Limit(ms[o[2]], o[3], o[4])
      [] o[1] = "group" -> Group(t, ms[o[2]], o[3])
      [] o[1] = "join" -> Join(t, ms[o[2]], ms[o[3]])
      [] o[1] = "all" -> JoinAll(t, [i \in 1..Len(o[2]) |-> ms[o[2][i]]])
Step(e) ==
    CASE e[1] = "read" ->
            /\ e[2] = "ok"
            /\ (e[3] = 1) = (e[4] = 1 \/ Faulty(e[5]))
            /\ table' = Table(e[5]) /\ models' = [x \in {"inj", "cart"} |-> <<>>]
      [] e[1] = "est" ->
            LET m == Model(IF e[2] = "inj" THEN table ELSE <<>>, models[e[2]], e[4]) IN
            m.size = e[3] /\ models' = [models EXCEPT ![e[2]] = Append(@, m)] /\ table' = table
      [] OTHER -> FALSE /\ UNCHANGED <<table, models>>
Next == l <= Len(Ev) /\ Step(Ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, table, models>>
NoReject == l <= Len(Ev) => ENABLED Next
=============================================================================
