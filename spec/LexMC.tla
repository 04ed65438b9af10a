------------------------------- MODULE LexMC -------------------------------
(* Design level: reading token by token never loses or invents a character, makes progress, and no token could be longer. *)
EXTENDS Lex, TLC
CONSTANTS Alphabet, MaxLen
VARIABLES s, i
vars == <<s, i>>
Init == s \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen} /\ i = 1
Here == Token(s, Skip(s, i))
Next == Here[1] # "TK_EOF" /\ i' = Here[2] /\ UNCHANGED s
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Progress == Here[1] # "TK_EOF" => Here[2] > Skip(s, i) /\ Here[2] <= Len(s) + 1
\* what is skipped is white space and comments
Blank == \A j \in i..Skip(s, i) - 1 : s[j] \in SPACE \/ \E k \in i..j : s[k] = 45 /\ Chr(s, k + 1) = 45 /\ \A m \in k..j : s[m] # NL
\* a token read from the text is read the same way where it stands alone, and it cannot be extended by the next character
Alone == LET a == Skip(s, i) t == Here IN t[1] # "TK_EOF" =>
    LET w == SubSeq(s, a, t[2] - 1) IN
    /\ (t[1] # "TK_ERROR" => Token(w, 1) = <<t[1], Len(w) + 1>>)
    /\ (t[2] <= Len(s) /\ t[1] \notin {"TK_ERROR", "TK_STRING_LITERAL", "TK_DATE", "TK_DATE_TIME"} =>
        LET x == Token(Append(w, s[t[2]]), 1) IN x[2] = Len(w) + 1 \/ x[1] = "TK_ERROR")
Ends == <>(i = Len(s) + 1 \/ Here[1] = "TK_EOF")
=============================================================================
