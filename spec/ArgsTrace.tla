----------------------------- MODULE ArgsTrace -----------------------------
(* ["args", command line, handler calls, positional arguments, verdict] *)
EXTENDS Args, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
Ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1
Holds == LET e == Ev[l] IN
    /\ e[1] = "args"
    /\ LET r == Parse(e[2], 1, <<>>, <<>>) IN
       CASE r[1] = "ok" -> e[5] = "ok" /\ e[3] = r[2] /\ e[4] = r[3]
         [] r[1] = "error" -> e[5] = "error"
         [] r[1] = "any" -> e[5] # "crash"
Next == l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l>>
NoReject == l <= Len(Ev) => Holds
=============================================================================
