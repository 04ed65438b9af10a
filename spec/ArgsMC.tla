------------------------------- MODULE ArgsMC -------------------------------
(* Laws of the parser of command lines: options and positional arguments commute, nothing after -- is an option, and a line is consumed
   completely. *)
EXTENDS Args
WORDS == {"-b", "-i", "-s", "42", "x", "--", "--unknown"}
VARIABLE a
Init == \E n \in 0..5 : a \in [1..n -> WORDS]
Next == UNCHANGED a
Spec == Init /\ [][Next]_a
P(s) == Parse(s, 1, <<>>, <<>>)
Size(calls) == LET RECURSIVE f(_)
                   f(i) == IF i > Len(calls) THEN 0 ELSE (IF calls[i][1] \in {"b", "o", "g"} THEN 1 ELSE 2) + f(i + 1) IN f(1)
Ignored(s) == Cardinality({i \in 1..Len(s) : s[i] \in {"--", "--unknown"}})
Consumed == P(a)[1] = "ok" => LET n == Size(P(a)[2]) + Len(P(a)[3]) IN n <= Len(a) /\ n >= Len(a) - Ignored(a)
Positional == LET s == <<"--">> \o a IN P(s) = <<"ok", <<>>, a>>
Commutes == LET p == P(a)  q == P(<<"x">> \o a)  r == P(<<"-s", "42">> \o a) IN
            p[1] = "ok" => q = <<"ok", p[2], <<"x">> \o p[3]>> /\ r = <<"ok", <<<<"s", "42">>>> \o p[2], p[3]>>
=============================================================================
