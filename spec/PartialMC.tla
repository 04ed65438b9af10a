------------------------------ MODULE PartialMC ------------------------------
(* The enumeration by a stack of decisions – take a candidate whole, or replace it by its two parts – for every plan of up to N relations:
   it announces every complete partial plan exactly once, and ends. *)
EXTENDS Partial, SequencesExt
CONSTANT N
RECURSIVE Trees(_)
Trees(S) == IF Cardinality(S) = 1 THEN {<<>>}
    ELSE UNION {{[X \in (DOMAIN a \cup DOMAIN b \cup {S}) |-> IF X = S THEN [l |-> L, r |-> S \ L] ELSE IF X \in DOMAIN a THEN a[X] ELSE b[X]] : a \in Trees(L), b \in Trees(S \ L)}
                : L \in {X \in SUBSET S : X # {} /\ X # S}}
VARIABLES n, t, taken, cand, dec, out, pc
vars == <<n, t, taken, cand, dec, out, pc>>
All == 0..n - 1
Init == /\ n \in 2..N /\ t \in Trees(0..n - 1)
        /\ taken = <<All>> /\ cand = <<>> /\ dec = <<TRUE>> /\ out = <<>> /\ pc = "go"
Take == pc = "go" /\ cand # <<>> /\ taken' = Append(taken, Last(cand)) /\ cand' = Front(cand) /\ dec' = Append(dec, TRUE) /\ UNCHANGED <<n, t, out, pc>>
Announce == pc = "go" /\ cand = <<>> /\ out' = Append(out, ToSet(taken)) /\ pc' = "unwind" /\ UNCHANGED <<n, t, taken, cand, dec>>
Finish == pc = "unwind" /\ dec = <<>> /\ pc' = "end" /\ UNCHANGED <<n, t, taken, cand, dec, out>>
Rejoin == /\ pc = "unwind" /\ dec # <<>> /\ ~Last(dec) /\ dec' = Front(dec)
          /\ cand' = Append(Front(Front(cand)), cand[Len(cand)] \cup cand[Len(cand) - 1]) /\ UNCHANGED <<n, t, taken, out, pc>>
Untake == /\ pc = "unwind" /\ dec # <<>> /\ Last(dec) /\ Cardinality(Last(taken)) = 1
          /\ dec' = Front(dec) /\ cand' = Append(cand, Last(taken)) /\ taken' = Front(taken) /\ UNCHANGED <<n, t, out, pc>>
Split == /\ pc = "unwind" /\ dec # <<>> /\ Last(dec) /\ Cardinality(Last(taken)) > 1 /\ LET S == Last(taken) IN cand' = cand \o <<t[S].l, t[S].r>>
         /\ taken' = Front(taken) /\ dec' = Append(Front(dec), FALSE) /\ pc' = "go" /\ UNCHANGED <<n, t, out>>
Next == Take \/ Announce \/ Finish \/ Rejoin \/ Untake \/ Split
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Complete == pc = "end" => ToSet(out) = Partials(t, All) /\ Len(out) = Cardinality(Partials(t, All))
Disjoint == \A i, j \in 1..Len(taken) : i # j => taken[i] \cap taken[j] = {}
Covered == pc = "go" => UNION (ToSet(taken) \cup ToSet(cand)) = All
Ends == <>(pc = "end")
=============================================================================
