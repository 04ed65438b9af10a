----------------------------- MODULE PoolTrace -----------------------------
EXTENDS PoolApi, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
Ev == Traces[tid].ev
TInit == Init /\ tid \in 1..Len(Traces) /\ l = 1
Is(name) == l <= Len(Ev) /\ Ev[l][1] = name
A(k) == Ev[l][k]
Step == \/ Is("I") /\ CallIntern(A(2), A(3), A(4))
        \/ Is("C") /\ CallCopy(A(2), A(3), A(4))
        \/ Is("M") /\ CallMove(A(2), A(3), A(4))
        \/ Is("D") /\ CallDrop(A(2), A(3))
        \/ Is("N") /\ CallCount(A(2), A(3))
        \/ Is("E") /\ CallEqual(A(2), A(3), A(4))
        \/ Is("i") /\ RetRef(A(2), A(3), A(4))
        \/ Is("d") /\ RetDrop(A(2))
        \/ Is("n") /\ RetCount(A(2), A(3))
        \/ Is("e") /\ RetEqual(A(2), A(3) = 1)
        \/ Is("x") /\ Swap(A(2), A(3), A(4))
        \/ Is("v") /\ Read(A(2), A(3), A(4), A(5))
        \/ Is("size") /\ Size(A(3)) /\ A(3) = A(4)
        \/ Is("end") /\ End
TNext == Step /\ l' = l + 1 /\ UNCHANGED tid
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
NoReject == l <= Len(Ev) => ENABLED Step
=============================================================================
