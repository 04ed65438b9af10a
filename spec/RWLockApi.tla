----------------------------- MODULE RWLockApi -----------------------------
(* What a user of the reader/writer lock may observe, as calls and returns.   *)
(* Per thread: "idle", pending calls pR/pW/pTR/pTW, certain ownership hR/hW,   *)
(* a pending upgrade "upg", or a release in progress "rel".                    *)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANT Thread

VARIABLES st,      \* [Thread -> status]
          lost,    \* upgrade can no longer succeed: someone else wrote meanwhile
          upov,    \* upgrade overlapped with another thread's upgrade
          cont,    \* try-call overlapped with conflicting activity of another thread
          blk,     \* pending write/upgrade that is known to be waiting (registered)
          must     \* [Thread -> set of waiting writers a later read must not overtake]
vars == <<st, lost, upov, cont, blk, must>>

Ops == {"R", "W", "TR", "TW"}
Pend(op) == CASE op = "R" -> "pR" [] op = "W" -> "pW" [] op = "TR" -> "pTR" [] op = "TW" -> "pTW"

TypeOK == /\ st \in [Thread -> {"idle","pR","pW","pTR","pTW","hR","hW","upg","relR","relW"}]
          /\ lost \in [Thread -> BOOLEAN] /\ upov \in [Thread -> BOOLEAN] /\ cont \in [Thread -> BOOLEAN]
          /\ blk \subseteq Thread /\ must \in [Thread -> SUBSET Thread]

Init == /\ st = [t \in Thread |-> "idle"] /\ lost = [t \in Thread |-> FALSE]
        /\ upov = [t \in Thread |-> FALSE] /\ cont = [t \in Thread |-> FALSE]
        /\ blk = {} /\ must = [t \in Thread |-> {}]

Others(t) == Thread \ {t}
Writerish == {"pW", "pTW", "hW", "upg", "relW"}

(* does activity s of another thread justify the failure of a try-call in state p *)
Conflicts(p, s) == \/ p = "pTR" /\ s \in Writerish
                   \/ p = "pTW" /\ s # "idle"

Call(t, op) ==
    /\ st[t] = "idle"
    /\ st' = [st EXCEPT ![t] = Pend(op)]
    /\ must' = [must EXCEPT ![t] = IF op \in {"R", "TR"} THEN blk ELSE {}]
    /\ cont' = [u \in Thread |->
                  IF u = t THEN \E v \in Others(t) : Conflicts(Pend(op), st[v])
                  ELSE cont[u] \/ Conflicts(st[u], Pend(op))]
    /\ UNCHANGED <<lost, upov, blk>>

(* t starts waiting for exclusive ownership: from now on it is queued *)
Block(t) ==
    /\ st[t] \in {"pR", "pW", "upg", "pTR", "pTW"}
    /\ st[t] \notin {"pTR", "pTW"}      \* try-calls never wait
    /\ blk' = IF st[t] \in {"pW", "upg"} THEN blk \cup {t} ELSE blk
    /\ UNCHANGED <<st, lost, upov, cont, must>>

NoOther(t, S) == \A u \in Others(t) : st[u] \notin S

RetR(t) ==      \* shared ownership granted
    /\ st[t] \in {"pR", "pTR"}
    /\ NoOther(t, {"hW"})
    /\ must[t] \cap blk = {}            \* no waiting writer was overtaken
    /\ st' = [st EXCEPT ![t] = "hR"]
    /\ must' = [must EXCEPT ![t] = {}]
    /\ cont' = [cont EXCEPT ![t] = FALSE]
    /\ UNCHANGED <<lost, upov, blk>>

Exclusive(t) ==
    /\ NoOther(t, {"hW", "hR"})
    /\ st' = [st EXCEPT ![t] = "hW"]
    /\ lost' = [u \in Thread |-> IF u = t THEN FALSE ELSE lost[u] \/ st[u] = "upg"]
    /\ upov' = [upov EXCEPT ![t] = FALSE]
    /\ blk' = blk \ {t}
    /\ must' = [u \in Thread |-> must[u] \ {t}]

RetW(t) == st[t] \in {"pW", "pTW"} /\ Exclusive(t) /\ cont' = [cont EXCEPT ![t] = FALSE]

RetTryFail(t) ==
    /\ st[t] \in {"pTR", "pTW"}
    /\ cont[t]
    /\ st' = [st EXCEPT ![t] = "idle"]
    /\ cont' = [cont EXCEPT ![t] = FALSE]
    /\ must' = [must EXCEPT ![t] = {}]
    /\ UNCHANGED <<lost, upov, blk>>

CallUpgrade(t) ==
    /\ st[t] = "hR"
    /\ st' = [st EXCEPT ![t] = "upg"]
    /\ upov' = [u \in Thread |-> IF u = t THEN \E v \in Others(t) : st[v] = "upg"
                                ELSE upov[u] \/ st[u] = "upg"]
    /\ cont' = [u \in Thread |-> cont[u] \/ (u # t /\ Conflicts(st[u], "upg"))]
    /\ UNCHANGED <<lost, blk, must>>

(* a successful upgrade: nobody wrote between the read acquisition and now *)
RetUpgrade(t) == st[t] = "upg" /\ ~lost[t] /\ Exclusive(t) /\ UNCHANGED cont

(* a failed upgrade: only because of a competing upgrade; the shared lock is given up *)
RetUpgradeFail(t) ==
    /\ st[t] = "upg" /\ upov[t]
    /\ st' = [st EXCEPT ![t] = "idle"]
    /\ lost' = [lost EXCEPT ![t] = FALSE] /\ upov' = [upov EXCEPT ![t] = FALSE]
    /\ blk' = blk \ {t}
    /\ must' = [u \in Thread |-> must[u] \ {t}]
    /\ UNCHANGED cont

CallRelease(t) ==
    /\ st[t] \in {"hR", "hW"}
    /\ st' = [st EXCEPT ![t] = IF st[t] = "hR" THEN "relR" ELSE "relW"]
    /\ UNCHANGED <<lost, upov, cont, blk, must>>
RetRelease(t) ==
    /\ st[t] \in {"relR", "relW"}
    /\ st' = [st EXCEPT ![t] = "idle"]
    /\ UNCHANGED <<lost, upov, cont, blk, must>>

(* All threads finished their programs. "Everybody waits forever" is not an action. *)
Finish == (\A t \in Thread : st[t] = "idle") /\ UNCHANGED vars

Next == \/ \E t \in Thread, op \in Ops : Call(t, op)
        \/ \E t \in Thread : \/ Block(t) \/ RetR(t) \/ RetW(t) \/ RetTryFail(t) \/ CallUpgrade(t)
                             \/ RetUpgrade(t) \/ RetUpgradeFail(t) \/ CallRelease(t) \/ RetRelease(t)
Spec == Init /\ [][Next]_vars

MutualExclusion == \A t \in Thread : st[t] = "hW" => \A u \in Others(t) : st[u] \notin {"hW", "hR"}
AtomicUpgrade == [][\A t \in Thread : (st[t] = "upg" /\ st'[t] = "hW") => ~lost[t]]_vars
NoOvertaking == [][\A t \in Thread : (st[t] \in {"pR","pTR"} /\ st'[t] = "hR") => must[t] \cap blk = {}]_vars
(* from every reachable state the lock can still be handed to some waiter *)
NeverStuck == (\E t \in Thread : st[t] # "idle") => ENABLED Next
=============================================================================
