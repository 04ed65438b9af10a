---------------------------- MODULE PlanTreeTrace ----------------------------
(* <<"query", statement>>, <<"plan", plan>>, <<"minimized", plan>> *)
EXTENDS PlanTree, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, query, plan
Ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1 /\ query = <<>> /\ plan = <<>>
Step(e) ==
    CASE e[1] = "skip" -> UNCHANGED <<query, plan>>
      [] e[1] = "query" -> query' = e[2] /\ plan' = <<>>
      [] e[1] = "plan" -> Valid(query, e[2], "") /\ Sound(e[2]) /\ Runs(e[2]) /\ plan' = e[2] /\ UNCHANGED query
      [] e[1] = "minimized" -> plan # <<>> /\ Minimal(plan, e[2], {}, TRUE) /\ Sound(e[2]) /\ Runs(e[2]) /\ plan' = <<>> /\ UNCHANGED query
      [] OTHER -> FALSE /\ UNCHANGED <<query, plan>>
Next == l <= Len(Ev) /\ Step(Ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, query, plan>>
NoReject == l <= Len(Ev) => ENABLED Next
=============================================================================
