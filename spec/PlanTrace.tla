----------------------------- MODULE PlanTrace -----------------------------
EXTENDS PlanSpec, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, n, E, kind, card, best
Ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1 /\ n = 0 /\ E = {} /\ kind = "" /\ card = <<>> /\ best = <<>>
A(k) == Ev[l][k]
V == 0..n - 1
Exhaustive == {"DPccp", "DPsize", "DPsizeOpt", "DPsizeSub", "DPsub", "DPsubOpt", "TDbasic", "TDMinCutAGaT"}
Heuristic == {"GOO", "TDGOO", "IKKBZ", "LinearizedDP", "HeuristicSearch", "HeuristicSearch*"}
Table(es) == [S \in {ToSet(e[1]) : e \in ToSet(es)} |-> LET e == CHOOSE x \in ToSet(es) : ToSet(x[1]) = S IN [l |-> ToSet(e[2]), r |-> ToSet(e[3]), c |-> e[4]]]
CostIn(t, S) == IF Cardinality(S) = 1 THEN 0 ELSE t[S].c
Valid(t, S, cross) == LET e == t[S] IN
    /\ e.l # {} /\ e.r # {} /\ e.l \cap e.r = {} /\ e.l \cup e.r = S
    /\ \A X \in {e.l, e.r} : Cardinality(X) = 1 \/ X \in DOMAIN t
    /\ cross \/ Adjacent(E, e.l, e.r)
    /\ e.c = CostIn(t, e.l) + CostIn(t, e.r) + Step(kind, card, e.l, e.r)
\* sets on the way down from S
RECURSIVE Below(_, _)
Below(t, S) == IF Cardinality(S) = 1 THEN {} ELSE {S} \cup (IF S \in DOMAIN t THEN Below(t, t[S].l) \cup Below(t, t[S].r) ELSE {})
Optimum(t, b, cross) == DOMAIN t = {S \in DOMAIN b : Cardinality(S) > 1} /\ \A S \in DOMAIN t : Valid(t, S, cross) /\ t[S].c = b[S]
Plan(t) == n > 1 => \A S \in Below(t, V) : S \in DOMAIN t /\ Valid(t, S, FALSE) /\ t[S].c >= best[S]
Holds == LET t == Table(A(3)) IN
    CASE A(1) \in Exhaustive -> Optimum(t, best, FALSE)
      [] A(1) = "PEall" -> Optimum(t, BestOver(SUBSET V \ {{}}, n, kind, card), TRUE)
      [] A(1) \in Heuristic -> Plan(t) /\ (("opt" \in DOMAIN Traces[tid] /\ n > 1) => t[V].c = best[V])
      [] OTHER -> FALSE
Load == /\ A(1) = "G"
        /\ n' = A(2) /\ E' = Sym(ToSet(A(3))) /\ kind' = A(5)
        /\ card' = [S \in {ToSet(x[1]) : x \in ToSet(A(4))} |-> LET y == CHOOSE x \in ToSet(A(4)) : ToSet(x[1]) = S IN y[2]]
        /\ best' = BestOver(CSG(E', 0..n' - 1, 0..n' - 1), n', kind', card')
Ok == l <= Len(Ev) => (A(1) = "G" \/ Holds)
Next == /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid
        /\ IF A(1) = "G" THEN Load ELSE UNCHANGED <<n, E, kind, card, best>>
Spec == Init /\ [][Next]_<<tid, l, n, E, kind, card, best>>
NoReject == Ok
=============================================================================
