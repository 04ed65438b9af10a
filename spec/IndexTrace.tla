----------------------------- MODULE IndexTrace -----------------------------
(* An index is a bag of entries <<key, row>>, in order of the keys once finalized.  Keys are given by their rank. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, bag, ready    \* bag: the entries (a set: row numbers are distinct)
Ev == Traces[tid].ev
Range(s) == {s[i] : i \in 1..Len(s)}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ bag = {} /\ ready = FALSE
Below(k) == Cardinality({e \in bag : e[1] < k})
UpTo(k) == Cardinality({e \in bag : e[1] <= k})
Step(e) ==
    CASE e[1] = "add" -> /\ bag' = bag \cup Range(e[2]) /\ ready' = (ready /\ e[2] = <<>>)   \* to be finalized
      [] e[1] = "load" -> /\ bag' = bag \cup {x \in Range(e[2]) : x[1] >= 0} /\ ready' = TRUE   \* NULL is not a key
      [] e[1] = "early" -> ~ready /\ e[2] = 1 /\ UNCHANGED <<bag, ready>>                     \* asked too early: refused
      [] e[1] = "all" -> /\ e[2] = Cardinality(bag) /\ e[3] = 1 /\ Len(e[4]) = e[2] /\ Range(e[4]) = bag
                         /\ \A i \in 1..(Len(e[4]) - 1) : e[4][i][1] <= e[4][i + 1][1]
                         /\ bag' = bag /\ ready' = TRUE
      [] e[1] = "ask" -> /\ ready /\ \A i \in 1..Len(e[2]) : LET p == e[2][i] IN p[2] = Below(p[1]) /\ p[3] = UpTo(p[1])
                         /\ UNCHANGED <<bag, ready>>
      [] OTHER -> FALSE /\ UNCHANGED <<bag, ready>>
Next == l <= Len(Ev) /\ Step(Ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, bag, ready>>
NoReject == l <= Len(Ev) => ENABLED Next
=============================================================================
