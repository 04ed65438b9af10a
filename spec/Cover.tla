------------------------------- MODULE Cover -------------------------------
(* Physical operators covering a logical plan.
   A logical plan is <<kind, id, children>>.  A pattern is "W" (any operator), <<kind, <<>>>> (an operator of this kind with any children)
   or <<kind, patterns>> (with children of these patterns, in either order).  A physical operator is a record
     [p: pattern, cost: matched operator -> cost, pre: position of a child -> condition, post: condition, last: whose condition it passes on]
   A condition is a set of properties; what is demanded has to be a subset of what is there, NEVER is never there. *)
EXTENDS Integers, Sequences, FiniteSets
NEVER == 4
Implied(pre, c) == NEVER \notin pre /\ pre \subseteq c
\* the ways to match the pattern p with the operator o: <<ids of the operators met in pre-order, operators left to others,
\* guards: how many operators were left to others before each source that is met>>
Shift(g, k) == {x + k : x \in g}
RECURSIVE Matches(_, _)
Matches(p, o) ==
    IF p = <<"W">> THEN {<< <<o[2]>>, <<o>>, {} >>}
    ELSE IF p[1] # o[1] THEN {}
    ELSE IF Len(p[2]) = 0 THEN {<< <<o[2]>>, o[3], IF Len(o[3]) = 0 THEN {0} ELSE {} >>}
    ELSE IF Len(p[2]) # Len(o[3]) THEN {}
    ELSE IF Len(p[2]) = 1 THEN {<< <<o[2]>> \o m[1], m[2], m[3] >> : m \in Matches(p[2][1], o[3][1])}
    ELSE UNION {{<< <<o[2]>> \o m[1] \o n[1], m[2] \o n[2], m[3] \cup Shift(n[3], Len(m[2])) >>
                 : m \in Matches(p[2][1], o[3][i]), n \in Matches(p[2][2], o[3][3 - i])} : i \in 1..2}
Sum(s) == LET f[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE f[i - 1] + s[i] IN f[Len(s)]
\* what the operator x yields for the operator o over children with the conditions and costs es
Yield(x, o, es) ==
    << IF x.post # {} THEN x.post ELSE IF Len(es) = 0 THEN {} ELSE IF x.last THEN es[Len(es)][1] ELSE es[1][1],
       x.cost[o[2]] + Sum([i \in 1..Len(es) |-> es[i][2]]) >>
\* what is demanded of an operator left to others is implied by its condition; nothing can be demanded of a source
Fits(x, es, g) == (\A i \in 1..Len(es) : Implied(x.pre[i - 1], es[i][1])) /\ \A i \in g : Implied(x.pre[i], {})
\* sequences with the i-th element taken from the i-th set
RECURSIVE Choices(_)
Choices(ss) == IF ss = <<>> THEN {<<>>} ELSE {<<h>> \o t : h \in Head(ss), t \in Choices(Tail(ss))}
\* every <<condition, cost>> some covering of the plan o yields
RECURSIVE Coverings(_, _)
Coverings(xs, o) == UNION {UNION {{Yield(x, o, es) : es \in {s \in Choices([i \in 1..Len(m[2]) |-> Coverings(xs, m[2][i])]) : Fits(x, s, m[3])}} : m \in Matches(x.p, o)} : x \in xs}
\* only the cheapest for every condition
Cheapest(S) == {e \in S : \A f \in S : f[1] = e[1] => f[2] >= e[2]}
RECURSIVE Table(_, _)
Table(xs, o) == Cheapest(UNION {UNION {{Yield(x, o, es) : es \in {s \in Choices([i \in 1..Len(m[2]) |-> Table(xs, m[2][i])]) : Fits(x, s, m[3])}} : m \in Matches(x.p, o)} : x \in xs})
RECURSIVE Operators(_)
Operators(o) == {o} \cup UNION {Operators(o[3][i]) : i \in 1..Len(o[3])}
=============================================================================
