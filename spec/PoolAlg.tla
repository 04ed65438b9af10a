------------------------------ MODULE PoolAlg ------------------------------
(* The interning algorithm over an abstract reader/writer lock: look up under   *)
(* the shared lock, upgrade to insert, start over when the upgrade is refused.  *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Thread, Value, RecheckOnRefusal, UpgradeIsAtomic
VARIABLES pc, want, table, next, holdR, holdW, upg, got
vars == <<pc, want, table, next, holdR, holdW, upg, got>>
(* table: set of <<value, object>> entries *)
Init == /\ pc = [t \in Thread |-> "idle"] /\ want \in [Thread -> Value] /\ table = {} /\ next = 1
        /\ holdR = {} /\ holdW = {} /\ upg = {} /\ got = [t \in Thread |-> 0]
LockRead(t) == /\ pc[t] \in {"idle", "retry"} /\ holdW = {} /\ upg = {}
               /\ holdR' = holdR \cup {t} /\ pc' = [pc EXCEPT ![t] = "lookup"]
               /\ UNCHANGED <<want, table, next, holdW, upg, got>>
Found(t) == /\ pc[t] = "lookup" /\ \E e \in table : e[1] = want[t] /\ got' = [got EXCEPT ![t] = e[2]]
            /\ holdR' = holdR \ {t} /\ pc' = [pc EXCEPT ![t] = "done"]
            /\ UNCHANGED <<want, table, next, holdW, upg>>
NotFound(t) == /\ pc[t] = "lookup" /\ ~ \E e \in table : e[1] = want[t]
               /\ IF upg = {} THEN upg' = {t} /\ pc' = [pc EXCEPT ![t] = "upgrading"] /\ UNCHANGED holdR
                  ELSE /\ holdR' = holdR \ {t} /\ UNCHANGED upg
                       /\ pc' = [pc EXCEPT ![t] = IF RecheckOnRefusal THEN "retry" ELSE "waitw"]
               /\ UNCHANGED <<want, table, next, holdW, got>>
LockWrite(t) == /\ pc[t] = "waitw" /\ holdR = {} /\ holdW = {}      \* the wrong alternative
                /\ holdW' = {t} /\ pc' = [pc EXCEPT ![t] = "insert"] /\ UNCHANGED <<want, table, next, holdR, upg, got>>
Upgraded(t) == /\ pc[t] = "upgrading" /\ holdR = {t} /\ holdW = {}
               /\ holdR' = {} /\ holdW' = {t} /\ upg' = {} /\ pc' = [pc EXCEPT ![t] = "insert"]
               /\ UNCHANGED <<want, table, next, got>>
GiveUp(t) == /\ ~UpgradeIsAtomic /\ pc[t] = "upgrading" /\ upg' = {} /\ holdR' = holdR \ {t}
             /\ pc' = [pc EXCEPT ![t] = "waitw"] /\ UNCHANGED <<want, table, next, holdW, got>>
Insert(t) == /\ pc[t] = "insert"
             /\ table' = table \cup {<<want[t], next>>} /\ next' = next + 1 /\ got' = [got EXCEPT ![t] = next]
             /\ holdW' = {} /\ pc' = [pc EXCEPT ![t] = "done"] /\ UNCHANGED <<want, holdR, upg>>
Next == \E t \in Thread : LockRead(t) \/ Found(t) \/ NotFound(t) \/ LockWrite(t) \/ Upgraded(t) \/ GiveUp(t) \/ Insert(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Thread : WF_vars(LockRead(t) \/ Found(t) \/ NotFound(t) \/ Upgraded(t) \/ Insert(t))
Canonical == \A a, b \in table : a[1] = b[1] => a = b
SameObject == \A s, t \in Thread : (pc[s] = "done" /\ pc[t] = "done") => (want[s] = want[t] <=> got[s] = got[t])
Exclusive == Cardinality(holdW) <= 1 /\ (holdW # {} => holdR = {})
AllDone == <>(\A t \in Thread : pc[t] = "done")
=============================================================================
