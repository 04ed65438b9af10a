---------------------------- MODULE RWLockTrace ----------------------------
EXTENDS RWLockApi, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
Ev == Traces[tid].ev
TInit == Init /\ tid \in 1..Len(Traces) /\ l = 1
Is(name) == l <= Len(Ev) /\ Ev[l][1] = name
T == Ev[l][2]
Step == \/ Is("call") /\ Call(T, Ev[l][3])
        \/ Is("block") /\ Block(T)
        \/ Is("retR") /\ RetR(T)
        \/ Is("retW") /\ RetW(T)
        \/ Is("fail") /\ RetTryFail(T)
        \/ Is("upg") /\ CallUpgrade(T)
        \/ Is("retU") /\ RetUpgrade(T)
        \/ Is("failU") /\ RetUpgradeFail(T)
        \/ Is("rel") /\ CallRelease(T)
        \/ Is("relRet") /\ RetRelease(T)
        \/ Is("end") /\ Finish
TNext == Step /\ l' = l + 1 /\ UNCHANGED tid
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
NoReject == l <= Len(Ev) => ENABLED Step
=============================================================================
