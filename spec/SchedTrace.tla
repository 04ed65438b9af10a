----------------------------- MODULE SchedTrace -----------------------------
EXTENDS SchedApi, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
Ev == Traces[tid].ev
TInit == Init /\ tid \in 1..Len(Traces) /\ l = 1
Is(name) == l <= Len(Ev) /\ Ev[l][1] = name
A(k) == Ev[l][k]
(* "auto" begins a transaction and submits its only command *)
Auto(t, c, ok) ==
    /\ txn[t] = "none" /\ st[c] = "new" /\ phase = "up"
    /\ txn' = [txn EXCEPT ![t] = "open"] /\ order' = [order EXCEPT ![t] = <<c>>]
    /\ st' = [st EXCEPT ![c] = "queued"] /\ good' = IF ok THEN good \cup {c} ELSE good
    /\ UNCHANGED <<active, cur, start, phase>>
Step == \/ Is("begin") /\ Begin(A(3))
        \/ Is("sub") /\ Submit(A(3), A(4), A(5) = 1)
        \/ Is("subRet") /\ UNCHANGED vars
        \/ Is("auto") /\ Auto(A(3), A(4), A(5) = 1)
        \/ Is("autoRet") /\ txn[A(3)] = "closed" /\ A(4) = (IF order[A(3)][1] \in good THEN 1 ELSE 0) /\ UNCHANGED vars
        \/ Is("x") /\ Exec(A(2), A(3))
        \/ Is("y") /\ ExecEnd(A(2))
        \/ Is("fut") /\ Future(A(2), A(3))
        \/ Is("stop") /\ Stop(A(3))
        \/ Is("stopRet") /\ StopRet(A(3), A(4))
        \/ Is("close") /\ Close
        \/ Is("closed") /\ Closed
        \/ Is("end") /\ End
TNext == Step /\ l' = l + 1 /\ UNCHANGED tid
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
NoReject == l <= Len(Ev) => ENABLED Step
=============================================================================
