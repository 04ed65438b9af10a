---------------------------- MODULE SortedTrace ----------------------------
(* Sorted vectors, ascending and descending, filled alike: ["ins", elements, what the first insertions returned, ascending, descending, size,
   empty], ["has", x, in the one, in the other]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, V
vars == <<tid, l, V>>
Ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1 /\ V = <<>>
Add(s, x) == LET k == Cardinality({i \in 1..Len(s) : s[i] < x}) IN SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))
RECURSIVE AddAll(_, _)
AddAll(s, t) == IF t = <<>> THEN s ELSE AddAll(Add(s, Head(t)), Tail(t))
Reversed(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Has(x) == \E i \in 1..Len(V) : V[i] = x
Step == LET e == Ev[l] IN
    CASE e[1] = "ins" -> /\ V' = AddAll(V, e[2]) /\ e[5] = V' /\ e[6] = Reversed(V') /\ e[7] = Len(V') /\ e[8] = (V' = <<>>)
                         /\ LET x == IF e[3] = 0 /\ e[4] = 0 THEN 0 ELSE e[2][1] IN e[3] = x /\ e[4] = x
      [] e[1] = "has" -> V' = V /\ e[3] = Has(e[2]) /\ e[4] = Has(e[2])
      [] OTHER -> FALSE
Next == l <= Len(Ev) /\ Step /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
NoReject == l <= Len(Ev) => ENABLED Next
=============================================================================
