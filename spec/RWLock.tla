------------------------------- MODULE RWLock -------------------------------
(* The lock's algorithm: counters guarded by one internal mutex (so every       *)
(* critical section is one action), two condition variables.  Refines RWLockApi *)
(* in the sense checked here: same safety statements, plus absence of lost      *)
(* wake-ups.  WakeAllForUpgrade = FALSE is the algorithm before the repair      *)
(* recorded in known_findings.jsonl: TLC then finds the deadlock.               *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Thread, WakeAllForUpgrade
VARIABLES rwait, wwait, ract, wact, wantup, pc, cvR, cvW, lastw, snap
vars == <<rwait, wwait, ract, wact, wantup, pc, cvR, cvW, lastw, snap>>

(* pc: idle, wantR (requested, about to test), sleepR, R, wantW, sleepW, W, wantU, sleepU, U (owns after upgrade) *)
Init == /\ rwait = 0 /\ wwait = 0 /\ ract = 0 /\ wact = FALSE /\ wantup = FALSE
        /\ pc = [t \in Thread |-> "idle"] /\ cvR = {} /\ cvW = {} /\ lastw = 0
        /\ snap = [t \in Thread |-> 0]

CanR == ~wantup /\ ~wact /\ wwait = 0
CanW == ~wact /\ ract = 0
CanU == ~wact /\ ract = 1
Set(t, s) == pc' = [pc EXCEPT ![t] = s]

LockRead(t) ==      \* one critical section: request, test, acquire or go to sleep
    /\ pc[t] = "idle"
    /\ IF CanR THEN Set(t, "R") /\ ract' = ract + 1 /\ snap' = [snap EXCEPT ![t] = lastw]
                    /\ UNCHANGED <<rwait, cvR>>
       ELSE Set(t, "sleepR") /\ rwait' = rwait + 1 /\ cvR' = cvR \cup {t} /\ UNCHANGED <<ract, snap>>
    /\ UNCHANGED <<wwait, wact, wantup, cvW, lastw>>
AwakeRead(t) ==     \* notified: test again
    /\ pc[t] = "sleepR" /\ t \notin cvR
    /\ IF CanR THEN Set(t, "R") /\ ract' = ract + 1 /\ rwait' = rwait - 1
                    /\ snap' = [snap EXCEPT ![t] = lastw] /\ UNCHANGED cvR
       ELSE cvR' = cvR \cup {t} /\ UNCHANGED <<pc, ract, rwait, snap>>
    /\ UNCHANGED <<wwait, wact, wantup, cvW, lastw>>
LockWrite(t) ==
    /\ pc[t] = "idle"
    /\ IF CanW THEN Set(t, "W") /\ wact' = TRUE /\ lastw' = 1 - lastw /\ UNCHANGED <<wwait, cvW>>
       ELSE Set(t, "sleepW") /\ wwait' = wwait + 1 /\ cvW' = cvW \cup {t} /\ UNCHANGED <<wact, lastw>>
    /\ UNCHANGED <<rwait, ract, wantup, cvR, snap>>
AwakeWrite(t) ==
    /\ pc[t] = "sleepW" /\ t \notin cvW
    /\ IF CanW THEN Set(t, "W") /\ wact' = TRUE /\ wwait' = wwait - 1 /\ lastw' = 1 - lastw /\ UNCHANGED cvW
       ELSE cvW' = cvW \cup {t} /\ UNCHANGED <<pc, wact, wwait, lastw>>
    /\ UNCHANGED <<rwait, ract, wantup, cvR, snap>>
Upgrade(t) ==
    /\ pc[t] = "R"
    /\ IF wantup THEN Set(t, "mustRelease") /\ UNCHANGED <<wantup, wwait, cvW, wact, ract>>
       ELSE IF ract = 1 THEN /\ Set(t, "U") /\ wact' = TRUE /\ ract' = 0 /\ UNCHANGED <<wantup, wwait, cvW>>
       ELSE /\ Set(t, "sleepU") /\ wantup' = TRUE /\ wwait' = wwait + 1 /\ cvW' = cvW \cup {t}
            /\ UNCHANGED <<wact, ract>>
    /\ UNCHANGED <<rwait, cvR, lastw, snap>>
AwakeUpgrade(t) ==
    /\ pc[t] = "sleepU" /\ t \notin cvW
    /\ IF CanU THEN Set(t, "U") /\ wact' = TRUE /\ ract' = 0 /\ wantup' = FALSE /\ wwait' = wwait - 1
                    /\ UNCHANGED cvW
       ELSE cvW' = cvW \cup {t} /\ UNCHANGED <<pc, wact, ract, wantup, wwait>>
    /\ UNCHANGED <<rwait, cvR, lastw, snap>>

NotifyOneWriter == IF cvW = {} THEN UNCHANGED cvW ELSE \E w \in cvW : cvW' = cvW \ {w}
ReleaseRead(t) ==
    /\ pc[t] \in {"R", "mustRelease"}
    /\ Set(t, "idle") /\ ract' = ract - 1
    /\ IF wantup /\ ract = 2
       THEN IF WakeAllForUpgrade THEN cvW' = {} ELSE NotifyOneWriter
       ELSE IF ract = 1 /\ wwait # 0 THEN NotifyOneWriter ELSE UNCHANGED cvW
    /\ UNCHANGED <<rwait, wwait, wact, wantup, cvR, lastw, snap>>
ReleaseWrite(t) ==
    /\ pc[t] \in {"W", "U"}
    /\ Set(t, "idle") /\ wact' = FALSE
    /\ IF wwait # 0 THEN NotifyOneWriter /\ UNCHANGED cvR
       ELSE cvR' = {} /\ UNCHANGED cvW
    /\ UNCHANGED <<rwait, wwait, ract, wantup, lastw, snap>>

Next == \E t \in Thread : \/ LockRead(t) \/ AwakeRead(t) \/ LockWrite(t) \/ AwakeWrite(t)
                          \/ Upgrade(t) \/ AwakeUpgrade(t) \/ ReleaseRead(t) \/ ReleaseWrite(t)
Progress(t) == AwakeRead(t) \/ AwakeWrite(t) \/ AwakeUpgrade(t) \/ ReleaseRead(t) \/ ReleaseWrite(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Thread : WF_vars(Progress(t))

Readers == {t \in Thread : pc[t] \in {"R", "sleepU", "mustRelease"}}
Writers == {t \in Thread : pc[t] \in {"W", "U"}}
MutualExclusion == Cardinality(Writers) <= 1 /\ (Writers # {} => Readers = {})
Counters == ract = Cardinality(Readers) /\ wact = (Writers # {})
            /\ rwait = Cardinality({t \in Thread : pc[t] = "sleepR"})
            /\ wwait = Cardinality({t \in Thread : pc[t] \in {"sleepW", "sleepU"}})
(* nobody wrote between the shared acquisition and the completed upgrade *)
AtomicUpgrade == \A t \in Thread : pc[t] = "U" => snap[t] = lastw
(* someone can always make a step that is not the arrival of a new request *)
Waiting == {t \in Thread : pc[t] \in {"sleepR", "sleepW", "sleepU"}}
NoLostWakeup == Waiting = Thread => \E t \in Thread : t \notin cvR \cup cvW
NoDeadlock == (\E t \in Thread : pc[t] # "idle") =>
              \E t \in Thread : pc[t] \in {"R", "W", "U", "mustRelease"} \/ (t \in Waiting /\ t \notin cvR \cup cvW)
(* if everyone who owns the lock gives it back, every waiter that nobody blocks is served: no waiter sleeps while the
   lock is free and nobody is on the way *)
NoSleeperOnFreeLock ==
    (ract = 0 /\ ~wact /\ Waiting # {}) => \E t \in Waiting : t \notin cvR \cup cvW
UpgraderServed ==
    (wantup /\ ract = 1 /\ ~wact) => \E t \in Thread : pc[t] = "sleepU" /\ t \notin cvW
=============================================================================
