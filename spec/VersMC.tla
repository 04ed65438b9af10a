------------------------------- MODULE VersMC -------------------------------
(* Transactions that insert and update rows of a versioned table, one after the other, while transactions that started earlier
   still read.  An update supersedes the version it sees from its own start on, and adds a new one.                          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS TXNS, KEYS, MAXROWS
VARIABLES rows, now, model      \* model[s]: what the transaction started at s should see, as a function from keys to values (0: nothing)
vars == <<rows, now, model>>
Visible(v, s) == v.from <= s /\ (v.to = -1 \/ v.to > s)
View(s) == {i \in 1..Len(rows) : Visible(rows[i], s)}
Init == rows = <<>> /\ now = 0 /\ model = <<[k \in KEYS |-> 0]>>
Begin == now < TXNS - 1 /\ now' = now + 1 /\ model' = Append(model, model[Len(model)]) /\ UNCHANGED rows
Write(k) == /\ Len(rows) < MAXROWS
            /\ LET V == {i \in View(now) : rows[i].key = k}
                   n == Len(rows) + 1
               IN /\ rows' = Append([i \in 1..Len(rows) |-> IF i \in V THEN [rows[i] EXCEPT !.to = now] ELSE rows[i]],
                                    [from |-> now, to |-> -1, key |-> k, val |-> n])
                  /\ model' = [model EXCEPT ![now + 1][k] = n]
            /\ UNCHANGED now
Erase(k) == /\ \E i \in View(now) : rows[i].key = k
            /\ rows' = [i \in 1..Len(rows) |-> IF i \in View(now) /\ rows[i].key = k THEN [rows[i] EXCEPT !.to = now] ELSE rows[i]]
            /\ model' = [model EXCEPT ![now + 1][k] = 0] /\ UNCHANGED now
Next == Begin \/ \E k \in KEYS : Write(k) \/ Erase(k)
Spec == Init /\ [][Next]_vars
\* every transaction, however old, sees exactly the state at its start and its own changes
Snapshots == \A s \in 0..now : {<<rows[i].key, rows[i].val>> : i \in View(s)} = {<<k, model[s + 1][k]>> : k \in {k \in KEYS : model[s + 1][k] # 0}}
Single == \A s \in 0..now : \A i, j \in View(s) : rows[i].key = rows[j].key => i = j
=============================================================================
