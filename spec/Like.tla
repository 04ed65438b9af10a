-------------------------------- MODULE Like --------------------------------
(* LIKE: % stands for any sequence, _ for any one character, the escape character for the %, _ or escape character after it.
   Strings and patterns are sequences of character codes. *)
EXTENDS Integers, Sequences, FiniteSets
Meta(esc) == {37, 95, esc}
\* a pattern is valid iff every escape character that is not escaped itself is followed by one it can escape
RECURSIVE Valid(_, _, _)
Valid(p, i, esc) == IF i > Len(p) THEN TRUE
                    ELSE IF p[i] # esc THEN Valid(p, i + 1, esc)
                    ELSE i < Len(p) /\ p[i + 1] \in Meta(esc) /\ Valid(p, i + 2, esc)
RECURSIVE Match(_, _, _, _, _)
Match(s, i, p, j, esc) ==
    IF j > Len(p) THEN i > Len(s)
    ELSE IF p[j] = 37 THEN \E k \in i..Len(s) + 1 : Match(s, k, p, j + 1, esc)
    ELSE IF p[j] = 95 THEN i <= Len(s) /\ Match(s, i + 1, p, j + 1, esc)
    ELSE IF p[j] = esc THEN i <= Len(s) /\ s[i] = p[j + 1] /\ Match(s, i + 1, p, j + 2, esc)
    ELSE i <= Len(s) /\ s[i] = p[j] /\ Match(s, i + 1, p, j + 1, esc)
Matches(s, p, esc) == Match(s, 1, p, 1, esc)
\* 1 yes, 0 no, 2 the pattern is rejected
----------------------------------------------------------------------------
(* The table-filling algorithm of like(): row i says which prefixes of s the first i characters of p match. *)
RECURSIVE Escaped(_, _, _)
Escaped(p, i, esc) == i > 1 /\ p[i - 1] = esc /\ ~Escaped(p, i - 1, esc)
RECURSIVE Row(_, _, _, _)
Row(s, p, i, esc) ==
    IF i = 0 THEN {0}
    ELSE LET above == Row(s, p, i - 1, esc)  x == Escaped(p, i, esc)  c == p[i] IN
         IF ~x /\ c = esc THEN above
         ELSE IF ~x /\ c = 37 THEN {j \in 0..Len(s) : \E k \in above : k <= j}
         ELSE {j \in 1..Len(s) : j - 1 \in above /\ ((~x /\ c = 95) \/ s[j] = c)}
Table(s, p, esc) == Len(s) \in Row(s, p, Len(p), esc)
\* 1 yes, 0 no, 2 the pattern is rejected; long ones are decided by the table, which LikeMC shows to be the same
Like(s, p, esc) == IF ~Valid(p, 1, esc) THEN 2
                   ELSE IF (IF Len(s) + Len(p) < 30 THEN Matches(s, p, esc) ELSE Table(s, p, esc)) THEN 1 ELSE 0
----------------------------------------------------------------------------
(* Escaping: the escape character, quotes and newlines of a string, and back. *)
RECURSIVE Esc(_, _)
Esc(s, i) == IF i > Len(s) THEN <<>>
             ELSE (IF s[i] \in {92, 34} THEN <<92, s[i]>> ELSE IF s[i] = 10 THEN <<92, 110>> ELSE <<s[i]>>) \o Esc(s, i + 1)
RECURSIVE Unesc(_, _)
Unesc(s, i) == IF i > Len(s) THEN <<>>
               ELSE IF s[i] = 92 /\ i < Len(s) /\ s[i + 1] \in {92, 34, 110} THEN <<IF s[i + 1] = 110 THEN 10 ELSE s[i + 1]>> \o Unesc(s, i + 2)
               ELSE <<s[i]>> \o Unesc(s, i + 1)
=============================================================================
