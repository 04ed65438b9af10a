-------------------------------- MODULE Cond --------------------------------
(* Conditions of intermediate results.  An order is a sequence of <<attribute, direction>>; "any" as direction: the result
   has one tuple at most (of what is known), in either direction (of what is demanded).
   A set of conditions is <<orders, predicated, lanes, never>>: <<>> or <<order>>; 0, 1 or 2 (nothing); a number or 0 (nothing); 0 or 1. *)
EXTENDS Integers, Sequences, FiniteSets
Places(o, a) == {i \in 1..Len(o) : o[i][1] = a}
OrderImplied(d, k) ==
    \A i \in 1..Len(d) : \E j \in Places(k, d[i][1]) :
        \/ k[j][2] = "any"
        \/ d[i][2] = "any" /\ j <= Len(d)
        \/ i = j /\ d[i][2] = k[j][2]
\* demanded, known
Implied(d, k) == /\ d[4] = 0
                 /\ d[1] # <<>> => k[1] # <<>> /\ OrderImplied(d[1][1], k[1][1])
                 /\ d[2] # 2 => d[2] = k[2]
                 /\ d[3] # 0 => d[3] = k[3]
\* what remains of an order: m is a sequence of <<attribute, new name>>
News(m, e) == LET S == SelectSeq(m, LAMBDA x : x[1] = e[1]) IN [i \in 1..Len(S) |-> <<S[i][2], e[2]>>]
RECURSIVE Projected(_, _)
Projected(o, m) == IF o = <<>> THEN <<>>
                   ELSE IF News(m, Head(o)) = <<>> /\ Head(o)[2] # "any" THEN <<>>
                   ELSE News(m, Head(o)) \o Projected(Tail(o), m)
Project(c, m) == <<IF c[1] = <<>> THEN <<>> ELSE <<Projected(c[1][1], m)>>, c[2], c[3], c[4]>>
Attrs(o) == {o[i][1] : i \in 1..Len(o)}
Put(c, k, v) == [c EXCEPT ![k] = v]
Has(c, k) == c[k] # CASE k = 1 -> <<>> [] k = 2 -> 2 [] OTHER -> 0

----------------------------------------------------------------------------
(* What orders mean: a result is a sequence of tuples, functions of attributes. *)
RECURSIVE Before(_, _, _)
Before(o, r, s) == IF o = <<>> THEN TRUE
                   ELSE LET a == Head(o)[1]  IN
                        IF r[a] = s[a] THEN Before(Tail(o), r, s) ELSE IF Head(o)[2] = "asc" THEN r[a] < s[a] ELSE r[a] > s[a]
Known(o, rel) == IF \E i \in 1..Len(o) : o[i][2] = "any" THEN Len(rel) <= 1 ELSE \A i \in 1..Len(rel) - 1 : Before(o, rel[i], rel[i + 1])
Alike(o, r, s) == \A a \in Attrs(o) : r[a] = s[a]
\* demanded in either direction: tuples that are alike are together
Demanded(o, rel) == IF Len(o) > 0 /\ \A i \in 1..Len(o) : o[i][2] = "any"
                    THEN \A i, k \in 1..Len(rel) : i < k /\ Alike(o, rel[i], rel[k]) => \A j \in i..k : Alike(o, rel[i], rel[j])
                    ELSE Known(o, rel)
=============================================================================
