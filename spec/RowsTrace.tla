---------------------------- MODULE RowsTrace ----------------------------
(* A store: ["append"|"drop", n, rows], ["w"|"r", first row, attributes, rows of values]. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, store
Ev == Traces[tid].ev
K == Len(Traces[tid].nullable)
Init == tid \in 1..Len(Traces) /\ l = 1 /\ store = <<>>
Blank == [i \in 1..K |-> "?"]                       \* appended, not written yet
Rows(s, from, A) == [j \in 1..Len(s) |-> [i \in 1..Len(A) |-> s[j][A[i] + 1]]]
Put(row, A, v) == [i \in 1..K |-> IF \E a \in 1..Len(A) : A[a] + 1 = i THEN v[CHOOSE a \in 1..Len(A) : A[a] + 1 = i] ELSE row[i]]
Step(e) ==
    CASE e[1] = "append" -> /\ e[3] = Len(store) + e[2] /\ store' = store \o [j \in 1..e[2] |-> Blank]
      [] e[1] = "drop" -> /\ e[2] <= Len(store) /\ e[3] = Len(store) - e[2] /\ store' = SubSeq(store, 1, e[3])
      [] e[1] = "w" -> store' = [j \in 1..Len(store) |-> IF j > e[2] /\ j <= e[2] + Len(e[4]) THEN Put(store[j], e[3], e[4][j - e[2]]) ELSE store[j]]
      [] e[1] = "r" -> /\ e[4] = [j \in 1..Len(e[4]) |-> [i \in 1..Len(e[3]) |-> store[e[2] + j][e[3][i] + 1]]]
                       /\ UNCHANGED store
      [] OTHER -> FALSE
Next == l <= Len(Ev) /\ Step(Ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, store>>
NoReject == l <= Len(Ev) => ENABLED Next
=============================================================================
