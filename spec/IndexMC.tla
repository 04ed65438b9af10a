------------------------------ MODULE IndexMC ------------------------------
(* Exponential search from a guess, as a recursive model index does it: the guess costs time but never changes the
   answer.  A probe of the entry at the guess needs an entry to be there. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, K
VARIABLES keys, guess, probe, upper, prev, curr, bound, dir, pc
vars == <<keys, guess, probe, upper, prev, curr, bound, dir, pc>>
Sorted == UNION {{s \in [1..n -> 1..K] : \A i \in 1..(n - 1) : s[i] <= s[i + 1]} : n \in 0..N}
\* positions 0..n; the key at position p is keys[p + 1]
End == Len(keys)
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Before(p) == IF upper THEN keys[p + 1] <= probe ELSE keys[p + 1] < probe    \* the answer is behind p
Bisect(lo, hi) == lo + Cardinality({p \in lo..(hi - 1) : Before(p)})
Init == /\ keys \in Sorted /\ guess \in 0..Len(keys) /\ probe \in 0..(K + 1) /\ upper \in BOOLEAN
        /\ prev = guess /\ curr = guess /\ bound = 1 /\ dir = 0 /\ pc = "begin"
Begin == /\ pc = "begin"
         /\ IF guess # End /\ Before(guess) THEN dir' = 1 /\ curr' = guess + 1 ELSE dir' = -1 /\ curr' = guess - 1
         /\ pc' = "walk" /\ UNCHANGED <<keys, guess, probe, upper, prev, bound>>
Walk == /\ pc = "walk"
        /\ IF (dir = 1 /\ curr < End /\ Before(curr)) \/ (dir = -1 /\ curr > 0 /\ ~Before(curr))
           THEN bound' = 2 * bound /\ prev' = curr /\ curr' = curr + dir * 2 * bound /\ pc' = "walk"
           ELSE /\ pc' = "done" /\ UNCHANGED <<prev, bound>>
                /\ curr' = IF dir = 1 THEN Bisect(prev, Min(curr + 1, End)) ELSE Bisect(Max(0, curr), prev)
        /\ UNCHANGED <<keys, guess, probe, upper, dir>>
Next == Begin \/ Walk
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InRange == pc = "walk" => prev \in 0..End
Answer == pc = "done" => curr = Cardinality({p \in 0..(End - 1) : Before(p)})
Terminates == <>(pc = "done")
=============================================================================
