---------------------------- MODULE HashMapTrace ----------------------------
(* A map from keys to several values.  Events end with size, capacity, watermark, number of live keys and values, and where the driver looked
   at everything, the entries by iterator and const iterator. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, B            \* B: set of <<key, value>>; values are unique
vars == <<tid, l, B>>
Ev == Traces[tid].ev
Range(s) == {s[i] : i \in 1..Len(s)}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ B = {}
Of(k) == {p \in B : p[1] = k}
Exactly(s, S) == Range(s) = S /\ Len(s) = Cardinality(S)
Pow2(n) == n \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192}
Sized(e, p, S) == e[p] = Cardinality(S) /\ Pow2(e[p + 1]) /\ e[p] <= e[p + 1] /\ e[p + 3] = 2 * Cardinality(S)
All(e, p, S) == Sized(e, p, S) /\ Exactly(e[p + 4], S) /\ Exactly(e[p + 5], S)
Step == LET e == Ev[l] IN
    CASE e[1] = "new" -> B' = {} /\ All(e, 2, B')
      [] e[1] = "insd" -> B' = B \cup {<<e[2], e[3]>>} /\ e[4] = e[2] /\ e[5] = e[3] /\ Sized(e, 6, B')
      [] e[1] = "insu" -> IF Of(e[2]) = {} THEN B' = B \cup {<<e[2], e[3]>>} /\ e[4] = e[2] /\ e[5] = e[3] /\ e[6] = TRUE /\ Sized(e, 7, B')
                          ELSE B' = B /\ <<e[4], e[5]>> \in Of(e[2]) /\ e[6] = FALSE /\ Sized(e, 7, B)
      [] e[1] = "find" -> B' = B /\ IF Of(e[2]) = {} THEN e[3] = FALSE ELSE e[3] = TRUE /\ <<e[4], e[5]>> \in Of(e[2])
      [] e[1] = "all" -> B' = B /\ e[4] = TRUE /\ Exactly(e[3], {p[2] : p \in Of(e[2])})
      [] e[1] = "count" -> B' = B /\ e[3] = Cardinality(Of(e[2]))
      \* a bucket lists entries, those with the key among them, none twice
      [] e[1] = "bucket" -> B' = B /\ Of(e[2]) \subseteq Range(e[3]) /\ Exactly(e[3], Range(e[3])) /\ Range(e[3]) \subseteq B
      [] e[1] \in {"re", "snap"} -> B' = B /\ All(e, 2, B)
      [] e[1] = "gone" -> B' = B /\ e[2] = 0
      [] OTHER -> FALSE
Next == l <= Len(Ev) /\ Step /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
NoReject == l <= Len(Ev) => ENABLED Next
=============================================================================
