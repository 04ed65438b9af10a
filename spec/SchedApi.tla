------------------------------ MODULE SchedApi ------------------------------
(* A scheduler that executes transactions serially, as its clients and the     *)
(* executed commands see it.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Txn, Cmd
VARIABLES txn,     \* [Txn -> "none","open","closed"]
          order,   \* [Txn -> sequence of its commands, in submission order]
          good,    \* commands that can be executed
          st,      \* [Cmd -> "new","queued","running","done","false","true"]: "false"/"true" once its future was read
          active,  \* transaction that has executed something and is not over yet, or 0
          cur,     \* command being executed, or 0
          start,   \* [Txn -> start time, -1 before]
          phase    \* "up", "closing", "closed"
vars == <<txn, order, good, st, active, cur, start, phase>>

Init == /\ txn = [t \in Txn |-> "none"] /\ order = [t \in Txn |-> <<>>] /\ good = {}
        /\ st = [c \in Cmd |-> "new"] /\ active = 0 /\ cur = 0 /\ start = [t \in Txn |-> -1] /\ phase = "up"

Begin(t) == /\ txn[t] = "none" /\ txn' = [txn EXCEPT ![t] = "open"]
            /\ UNCHANGED <<order, good, st, active, cur, start, phase>>
Submit(t, c, ok) ==
    /\ txn[t] = "open" /\ st[c] = "new" /\ phase = "up"
    /\ order' = [order EXCEPT ![t] = Append(@, c)]
    /\ st' = [st EXCEPT ![c] = "queued"]
    /\ good' = IF ok THEN good \cup {c} ELSE good
    /\ UNCHANGED <<txn, active, cur, start, phase>>
Owner(c) == CHOOSE t \in Txn : \E i \in 1..Len(order[t]) : order[t][i] = c
Before(t, c) == LET i == CHOOSE i \in 1..Len(order[t]) : order[t][i] = c IN {order[t][j] : j \in 1..(i-1)}
MaxStart == CHOOSE m \in {-1} \cup {start[t] : t \in Txn} : \A t \in Txn : start[t] <= m

(* c is executed only after all earlier commands of its transaction, while no other transaction is active *)
Exec(c, time) ==
    /\ st[c] = "queued" /\ c \in good /\ cur = 0 /\ phase # "closed"
    /\ LET t == Owner(c) IN
         /\ txn[t] = "open"
         /\ active \in {0, t}
         /\ \A d \in Before(t, c) : d \in good => st[d] \in {"done", "true"}
         /\ IF start[t] = -1 THEN time > MaxStart /\ start' = [start EXCEPT ![t] = time]
                             ELSE time = start[t] /\ UNCHANGED start
         /\ active' = t
    /\ cur' = c /\ st' = [st EXCEPT ![c] = "running"]
    /\ UNCHANGED <<txn, order, good, phase>>
ExecEnd(c) == /\ cur = c /\ st[c] = "running" /\ cur' = 0 /\ st' = [st EXCEPT ![c] = "done"]
              /\ UNCHANGED <<txn, order, good, active, start, phase>>

(* a future tells whether its command was executed; commands are not given up while the scheduler is up *)
Future(c, v) ==
    /\ \/ v = 1 /\ st[c] = "done" /\ st' = [st EXCEPT ![c] = "true"]
       \/ v = 0 /\ st[c] = "queued" /\ (c \notin good \/ phase # "up") /\ st' = [st EXCEPT ![c] = "false"]
    /\ UNCHANGED <<txn, order, good, active, cur, start, phase>>
Stop(t) ==     \* commit or abort: from here on other transactions may run
    /\ txn[t] = "open"
    /\ \A i \in 1..Len(order[t]) : st[order[t][i]] \in {"true", "false"}
    /\ txn' = [txn EXCEPT ![t] = "closed"]
    /\ active' = IF active = t THEN 0 ELSE active
    /\ UNCHANGED <<order, good, st, cur, start, phase>>
StopRet(t, r) == txn[t] = "closed" /\ r = 1 /\ UNCHANGED vars
Close == phase = "up" /\ phase' = "closing" /\ UNCHANGED <<txn, order, good, st, active, cur, start>>
Closed == phase = "closing" /\ cur = 0 /\ phase' = "closed" /\ UNCHANGED <<txn, order, good, st, active, cur, start>>
End == /\ phase = "closed" /\ \A c \in Cmd : st[c] \in {"new", "true", "false"}
       /\ UNCHANGED vars

Next == \/ \E t \in Txn : Begin(t) \/ Stop(t) \/ \E c \in Cmd, ok \in BOOLEAN : Submit(t, c, ok)
        \/ \E c \in Cmd : ExecEnd(c) \/ (\E v \in {0, 1} : Future(c, v))
                          \/ (st[c] = "queued" /\ Exec(c, IF start[Owner(c)] = -1 THEN MaxStart + 1 ELSE start[Owner(c)]))
        \/ Close \/ Closed
Spec == Init /\ [][Next]_vars

OneAtATime == Cardinality({c \in Cmd : st[c] = "running"}) <= 1
(* executed commands of different open transactions never mix *)
Serial == \A s, t \in Txn : (s # t /\ txn[s] = "open" /\ txn[t] = "open") =>
             ~ ((\E i \in 1..Len(order[s]) : st[order[s][i]] \in {"running", "done", "true"})
                /\ (\E i \in 1..Len(order[t]) : st[order[t][i]] \in {"running", "done", "true"}))
TimesDiffer == \A s, t \in Txn : (s # t /\ start[s] # -1) => start[s] # start[t]
=============================================================================
