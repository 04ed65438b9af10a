-------------------------------- MODULE Lex --------------------------------
(* The tokens of a text.  A text is a sequence of character codes (1..255, no NUL). *)
EXTENDS Integers, Sequences, FiniteSets
Chr(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
DIGIT == 48..57
OCTAL == 48..55
HEX == DIGIT \cup 97..102 \cup 65..70
LETTER == 65..90 \cup 97..122
WORD == LETTER \cup DIGIT \cup {95}
SPACE == {32, 9, 10, 11, 12, 13}
QUOTE == 34
BSL == 92
NL == 10
\* the first position from i on whose character is not in S
RECURSIVE Past(_, _, _)
Past(s, i, S) == IF Chr(s, i) \in S THEN Past(s, i + 1, S) ELSE i
RECURSIVE Until(_, _, _)
Until(s, i, S) == IF i > Len(s) \/ s[i] \in S THEN i ELSE Until(s, i + 1, S)
\* where the next token starts: after white space and comments
RECURSIVE Skip(_, _)
Skip(s, i) == IF Chr(s, i) \in SPACE THEN Skip(s, i + 1)
              ELSE IF Chr(s, i) = 45 /\ Chr(s, i + 1) = 45 THEN Skip(s, Until(s, i, {NL}))
              ELSE i
One(c) == CASE c = 40 -> "TK_LPAR" [] c = 41 -> "TK_RPAR" [] c = 126 -> "TK_TILDE" [] c = 43 -> "TK_PLUS" [] c = 45 -> "TK_MINUS"
            [] c = 42 -> "TK_ASTERISK" [] c = 47 -> "TK_SLASH" [] c = 37 -> "TK_PERCENT" [] c = 61 -> "TK_EQUAL" [] c = 60 -> "TK_LESS"
            [] c = 62 -> "TK_GREATER" [] c = 44 -> "TK_COMMA" [] c = 59 -> "TK_SEMICOL" [] c = 46 -> "TK_DOT" [] OTHER -> "TK_ERROR"
Two(c, d) == CASE c = 33 /\ d = 61 -> "TK_BANG_EQUAL" [] c = 60 /\ d = 61 -> "TK_LESS_EQUAL" [] c = 62 /\ d = 61 -> "TK_GREATER_EQUAL"
               [] c = 46 /\ d = 46 -> "TK_DOTDOT" [] OTHER -> ""
(* Numbers: [0x] digits [. digits] [e|p [+|-] digits].  An integer with a leading zero is octal.  Returns <<type, end>>. *)
Number(s, i) ==
    LET hex == Chr(s, i) = 48 /\ Chr(s, i + 1) \in {120, 88}
        DS == IF hex THEN HEX ELSE DIGIT
        a == IF hex THEN i + 2 ELSE i                   \* digits before the dot: a..b-1
        b == Past(s, a, DS)
        dot == Chr(s, b) = 46
        c == IF dot THEN b + 1 ELSE b                   \* digits after the dot: c..d-1
        d == IF dot THEN Past(s, c, DS) ELSE b
        exp == Chr(s, d) \in (IF hex THEN {112, 80} ELSE {101, 69})
        e == IF ~exp THEN d ELSE IF Chr(s, d + 1) \in {43, 45} THEN d + 2 ELSE d + 1
        f == IF exp THEN Past(s, e, DIGIT) ELSE d
        float == dot \/ exp
        octal == ~hex /\ ~float /\ Chr(s, i) = 48
        valid == (IF exp THEN f > e ELSE b > a \/ d > c) /\ (octal => \A j \in i..b - 1 : s[j] \in OCTAL)
    IN <<IF ~valid THEN "TK_ERROR" ELSE IF hex THEN (IF float THEN "TK_HEX_FLOAT" ELSE "TK_HEX_INT")
         ELSE IF float THEN "TK_DEC_FLOAT" ELSE IF octal THEN "TK_OCT_INT" ELSE "TK_DEC_INT", f>>
\* strings: up to the next quote that is not escaped
RECURSIVE StrEnd(_, _)
StrEnd(s, i) == CASE i > Len(s) -> i
                  [] s[i] = QUOTE -> i
                  [] s[i] = BSL -> StrEnd(s, i + 2)
                  [] OTHER -> StrEnd(s, i + 1)
RECURSIVE BadEscape(_, _, _)
BadEscape(s, i, e) == IF i >= e THEN FALSE
                      ELSE IF s[i] = BSL THEN Chr(s, i + 1) \notin {QUOTE, BSL, 110, 116} \/ BadEscape(s, i + 2, e)
                      ELSE BadEscape(s, i + 1, e)
String(s, i) == LET e0 == StrEnd(s, i + 1)
                    e == IF e0 > Len(s) + 1 THEN Len(s) + 1 ELSE e0
                IN IF e > Len(s) THEN <<"TK_ERROR", e>>
                   ELSE <<IF BadEscape(s, i + 1, e) THEN "TK_ERROR" ELSE "TK_STRING_LITERAL", e + 1>>
(* Dates d'[-]YYYY-MM-DD' and d'[-]YYYY-MM-DD hh:mm:ss'.  What does not fit is skipped over as far as it fits. *)
DATEFORM == <<DIGIT, DIGIT, DIGIT, DIGIT, {45}, DIGIT, DIGIT, {45}, DIGIT, DIGIT>>
TIMEFORM == <<DIGIT, DIGIT, {58}, DIGIT, DIGIT, {58}, DIGIT, DIGIT>>
RECURSIVE Fit(_, _, _, _)
Fit(s, i, form, ok) == IF form = <<>> THEN <<i, ok>>
                       ELSE IF Chr(s, i) \in Head(form) THEN Fit(s, i + 1, Tail(form), ok) ELSE Fit(s, i, Tail(form), FALSE)
DateTok(s, i) ==
    LET a == Fit(s, IF Chr(s, i + 2) = 45 THEN i + 3 ELSE i + 2, DATEFORM, TRUE)
        time == Chr(s, a[1]) = 32
        b == IF time THEN Fit(s, a[1] + 1, TIMEFORM, a[2]) ELSE a
    IN IF Chr(s, b[1]) # 39 THEN <<"TK_ERROR", b[1]>>
       ELSE <<IF ~b[2] THEN "TK_ERROR" ELSE IF time THEN "TK_DATE_TIME" ELSE "TK_DATE", b[1] + 1>>
\* the token that starts at i: <<type, end>>; words are turned into keywords by Keyword
Token(s, i) ==
    LET c == Chr(s, i) IN
    CASE c = -1 -> <<"TK_EOF", i>>
      [] c \in DIGIT -> Number(s, i)
      [] c = 46 /\ Chr(s, i + 1) \in DIGIT -> Number(s, i)
      [] c = QUOTE -> String(s, i)
      [] c = 100 /\ Chr(s, i + 1) = 39 -> DateTok(s, i)
      [] c \in LETTER \cup {95} -> <<"word", Past(s, i, WORD)>>
      [] c = BSL -> <<"TK_INSTRUCTION", Until(s, i, {59})>>
      [] Two(c, Chr(s, i + 1)) # "" -> <<Two(c, Chr(s, i + 1)), i + 2>>
      [] OTHER -> <<One(c), i + 1>>
\* line and column of position i
Line(s, i) == 1 + Cardinality({j \in 1..i - 1 : s[j] = NL})
RECURSIVE LastNL(_, _)
LastNL(s, j) == IF j = 0 THEN 0 ELSE IF s[j] = NL THEN j ELSE LastNL(s, j - 1)
Column(s, i) == i - LastNL(s, i - 1)
RECURSIVE Tokens(_, _)
Tokens(s, i) == LET a == Skip(s, i) t == Token(s, a) IN
                <<[type |-> t[1], from |-> a, to |-> t[2]]>> \o (IF t[1] = "TK_EOF" THEN <<>> ELSE Tokens(s, t[2]))
=============================================================================
