----------------------------- MODULE CondTrace -----------------------------
(* ["implied", demanded, known, answer], ["equal", a, b, answer], ["project", a, names, result],
   ["add", a, place, value, refused, result], ["replace", a, place, value, result], ["merge", order, order, refused, result] *)
EXTENDS Cond, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
Ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1
Holds == LET e == Ev[l] IN
    CASE e[1] = "implied" -> e[4] = IF Implied(e[2], e[3]) THEN 1 ELSE 0
      [] e[1] = "equal" -> e[4] = IF e[2] = e[3] THEN 1 ELSE 0
      [] e[1] = "project" -> e[4] = Project(e[2], e[3])
      [] e[1] = "add" -> /\ e[5] = IF Has(e[2], e[3]) THEN 1 ELSE 0
                         /\ e[6] = IF Has(e[2], e[3]) THEN e[2] ELSE Put(e[2], e[3], e[4])
      [] e[1] = "replace" -> e[5] = Put(e[2], e[3], e[4])
      [] e[1] = "merge" -> IF Attrs(e[2]) \cap Attrs(e[3]) # {} THEN e[4] = 1 ELSE e[4] = 0 /\ e[5] = e[2] \o e[3]
      [] OTHER -> FALSE
Next == l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l>>
NoReject == l <= Len(Ev) => Holds
=============================================================================
