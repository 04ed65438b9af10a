------------------------------ MODULE LexTrace ------------------------------
(* ["lex", text, tokens, errors]: the tokens [type, text, line, column] read from the text, and how many errors were reported. *)
EXTENDS Lex, Keywords, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
Ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1
EOFTEXT == <<69, 79, 70>>
Expect(s) == LET T == Tokens(s, 1) IN
    [k \in 1..Len(T) |-> LET t == T[k] w == SubSeq(s, t.from, t.to - 1) IN
        <<IF t.type = "word" THEN Keyword(w) ELSE t.type, IF t.type = "TK_EOF" THEN EOFTEXT ELSE w, Line(s, t.from), Column(s, t.from)>>]
Holds == /\ Ev[l][1] = "lex"
         /\ LET E == Expect(Ev[l][2]) IN
            Ev[l][3] = E /\ Ev[l][4] = Cardinality({k \in DOMAIN E : E[k][1] = "TK_ERROR"})
Next == l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l>>
NoReject == l <= Len(Ev) => Holds
=============================================================================
