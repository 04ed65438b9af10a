------------------------------ MODULE DsvTrace ------------------------------
(* <<"import", verdict, lines of reports, all rows after it, the file, delimiter, quote, escape, header, skip, limit>> *)
EXTENDS Dsv, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, rows
Ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1 /\ rows = <<>>
Step(e) ==
    /\ e[1] = "import"
    /\ LET c == [d |-> e[6], q |-> e[7], e |-> e[8], hdr |-> e[9] = 1, skip |-> e[10] = 1, rows |-> e[11]]
           r == Read(e[5], c, Traces[tid].cols) IN
       /\ rows' = rows \o r[1]
       /\ e[4] = rows'
       /\ RangeOf(e[3]) = {Line(e[5], p) : p \in r[2]}
       /\ (e[2] = "ok") = (r[2] = {})
Next == l <= Len(Ev) /\ Step(Ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, rows>>
NoReject == l <= Len(Ev) => ENABLED Next
=============================================================================
