------------------------------- MODULE DsvMC -------------------------------
(* All short files over a small alphabet, read as (string, INT(1)), under two ways of escaping. *)
EXTENDS Dsv
CONSTANTS MAXLEN
Table == << <<<<97>>, "c", 9>>, <<<<98>>, "i", 1>> >>
Cfg(esc, hdr, skip, n) == [d |-> 44, q |-> 34, e |-> esc, hdr |-> hdr, skip |-> skip, rows |-> n]
Escapes == {34, 92}
Alphabet == {120, 49, 44, 34, 92, 10}
VARIABLES s
Init == s = <<>>
Next == Len(s) < MAXLEN /\ \E ch \in Alphabet : s' = Append(s, ch)
Spec == Init /\ [][Next]_s
Rd(t, e) == Read(t, Cfg(e, FALSE, FALSE, -1), Table)
Rows(t, e) == Rd(t, e)[1]
Lines(t) == Cardinality({i \in 1..Len(t) : t[i] = NL}) + (IF t = <<>> THEN 0 ELSE IF t[Len(t)] = NL THEN 0 ELSE 1)
Swap(r) == <<r[2], r[1]>>
HeaderAB == <<97, 44, 98, 10>>
HeaderB == <<98, 44, 122, 10>>
\* a row as text, and what it reads as
RECURSIVE Escaped(_, _)
Escaped(t, e) == IF t = <<>> THEN <<>> ELSE (IF Head(t) \in {34, e} THEN <<e, Head(t)>> ELSE <<Head(t)>>) \o Escaped(Tail(t), e)
Written(t, e) == <<34>> \o Escaped(t, e) \o <<34, 44, 45, 49, 10>>
Sane == \A e \in Escapes : LET r == Rd(s, e) IN
    /\ Len(r[1]) <= Lines(s) /\ \A i \in 1..Len(r[1]) : Len(r[1][i]) = 2
    /\ \A p \in r[2] : p >= 1 /\ Line(s, p) <= Lines(s) + 1
    /\ r[2] = {} /\ s # <<>> => r[1] # <<>>                                        \* nothing is lost silently
Limited == \A e \in Escapes, n \in 0..3 : LET all == Rows(s, e)  some == Read(s, Cfg(e, FALSE, FALSE, n), Table)[1] IN
    some = SubSeq(all, 1, IF n < Len(all) THEN n ELSE Len(all))
Headers == \A e \in Escapes :
    /\ Read(HeaderAB \o s, Cfg(e, TRUE, FALSE, -1), Table)[1] = Rows(s, e)
    /\ Read(<<120, 44, 10>> \o s, Cfg(e, TRUE, TRUE, -1), Table)[1] = Rows(s, e)
    /\ Read(<<10>> \o s, Cfg(e, FALSE, TRUE, -1), Table)[1] = Rows(s, e)
    /\ LET r == Read(HeaderB \o s, Cfg(e, TRUE, FALSE, -1), Table)[1] IN \A i \in 1..Len(r) : r[i][1] = Null
\* every string survives being written and read, whatever is around it
RoundTrip == \A e \in Escapes :
    /\ Rd(Written(s, e), e) = << << << <<0>> \o s, <<-1, 1>> >> >>, {} >>
    /\ LET r == Rows(Written(s, e) \o s, e) IN r = << << <<0>> \o s, <<-1, 1>> >> >> \o Rows(s, e)
=============================================================================
