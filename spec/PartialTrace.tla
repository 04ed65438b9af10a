---------------------------- MODULE PartialTrace ----------------------------
(* <<"tree", n, plan>>, <<"partial", table, partial plans>>, <<"json", partial plans, tokens>> *)
EXTENDS Partial, SequencesExt, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, n, t
Ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1 /\ n = 0 /\ t = <<>>
Sets(p) == [i \in 1..Len(p) |-> ToSet(p[i])]
Tree(es) == [S \in {ToSet(es[i][1]) : i \in 1..Len(es)} |-> LET e == es[CHOOSE i \in 1..Len(es) : ToSet(es[i][1]) = S] IN [l |-> ToSet(e[2]), r |-> ToSet(e[3])]]
All == IF n = 0 THEN {} ELSE Partials(t, 0..n - 1)
Q == "\""
Item(p) == LET i == [k \in 1..Len(p) |-> Q \o Text(t, ToSet(p[k])) \o Q] IN <<"[">> \o FlattenSeq([k \in 1..Len(p) |-> IF k = 1 THEN <<i[k]>> ELSE <<",", i[k]>>]) \o <<"]">>
Document(ps) == <<"[">> \o FlattenSeq([k \in 1..Len(ps) |-> (IF k = 1 THEN <<>> ELSE <<",">>) \o Item(ps[k])]) \o <<"]">>
Step(e) ==
    CASE e[1] = "tree" -> n' = e[2] /\ t' = Tree(e[3])
      [] e[1] = "partial" -> LET ps == {ToSet(Sets(e[3][i])) : i \in 1..Len(e[3])} IN
            /\ ps = All /\ Len(e[3]) = Cardinality(All)
            /\ \A i \in 1..Len(e[3]) : Len(e[3][i]) = Cardinality(ToSet(Sets(e[3][i])))
            /\ UNCHANGED <<n, t>>
      [] e[1] = "json" -> e[3] = Document(e[2]) /\ UNCHANGED <<n, t>>
      [] OTHER -> FALSE /\ UNCHANGED <<n, t>>
Next == l <= Len(Ev) /\ Step(Ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, n, t>>
NoReject == l <= Len(Ev) => ENABLED Next
=============================================================================
