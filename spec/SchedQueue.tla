----------------------------- MODULE SchedQueue -----------------------------
(* The command queue of the serial scheduler: clients push, one worker pops.    *)
(* The list keeps the commands of one transaction together.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Client, PerTxn, Txns    \* every client runs Txns transactions of PerTxn commands, pushing without waiting
VARIABLES queue,    \* sequence of <<client, txn, n>>
          running,  \* <<client, txn>> or <<>>
          pushed,   \* [Client -> <<txn, n>>] commands pushed of the current transaction
          exec,     \* sequence of executed commands
          wpc, closed
vars == <<queue, running, pushed, exec, wpc, closed>>
Id(x) == <<x[1], x[2]>>
Init == queue = <<>> /\ running = <<>> /\ pushed = [c \in Client |-> <<1, 0>>] /\ exec = <<>> /\ wpc = "wait" /\ closed = FALSE
LastOf(t) == {i \in 1..Len(queue) : Id(queue[i]) = t}
Max(S) == CHOOSE m \in S : \A x \in S : x <= m
Ins(q, i, x) == SubSeq(q, 1, i) \o <<x>> \o SubSeq(q, i + 1, Len(q))
Push(c) == /\ pushed[c][1] <= Txns /\ pushed[c][2] < PerTxn
           /\ LET t == <<c, pushed[c][1]>>  x == <<c, pushed[c][1], pushed[c][2] + 1>> IN
                queue' = IF LastOf(t) # {} THEN Ins(queue, Max(LastOf(t)), x)
                         ELSE IF running = t THEN <<x>> \o queue ELSE Append(queue, x)
           /\ pushed' = [pushed EXCEPT ![c][2] = @ + 1]
           /\ UNCHANGED <<running, exec, wpc, closed>>
Pop == /\ wpc = "wait" /\ queue # <<>> /\ (running = <<>> \/ running = Id(Head(queue)))
       /\ queue' = Tail(queue) /\ running' = Id(Head(queue))
       /\ exec' = Append(exec, Head(queue)) /\ UNCHANGED <<pushed, wpc, closed>>
Commit(c) == /\ pushed[c][1] <= Txns /\ pushed[c][2] = PerTxn
             /\ Cardinality({i \in 1..Len(exec) : Id(exec[i]) = <<c, pushed[c][1]>>}) = PerTxn     \* all futures resolved
             /\ running' = IF running = <<c, pushed[c][1]>> THEN <<>> ELSE running
             /\ pushed' = [pushed EXCEPT ![c] = <<@[1] + 1, 0>>]
             /\ UNCHANGED <<queue, exec, wpc, closed>>
Next == Pop \/ \E c \in Client : Push(c) \/ Commit(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Contiguous == \A i, j \in 1..Len(exec) : (i < j /\ Id(exec[i]) = Id(exec[j])) =>
                 /\ exec[i][3] < exec[j][3]
                 /\ \A k \in i..j : Id(exec[k]) = Id(exec[i])
Once == \A i, j \in 1..Len(exec) : exec[i] = exec[j] => i = j
NoLoss == (Len(exec) + Len(queue)) = Cardinality({<<c, t, n>> \in Client \X (1..Txns) \X (1..PerTxn) : t < pushed[c][1] \/ (t = pushed[c][1] /\ n <= pushed[c][2])})
AllDone == <>(\A c \in Client : pushed[c][1] = Txns + 1)
=============================================================================
