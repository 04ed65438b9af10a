----------------------------- MODULE GrammarMC -----------------------------
(* For every short text: if it is an expression, the fully parenthesised text of its tree is an expression with the same tree,
   and operators nest as their precedences and left-associativity say.                                                       *)
EXTENDS Grammar
CONSTANT N
V == {<<"TK_IDENTIFIER", "a">>, <<"TK_LPAR", "(">>, <<"TK_RPAR", ")">>, <<"TK_MINUS", "-">>, <<"TK_Not", "NOT">>,
      <<"TK_ASTERISK", "*">>, <<"TK_EQUAL", "=">>, <<"TK_And", "AND">>, <<"TK_COMMA", ",">>}
EOFT == <<"TK_EOF", "EOF">>
VARIABLE K
Init == K = <<>>
Next == Len(K) < N /\ \E t \in V : K' = Append(K, t)
Spec == Init /\ [][Next]_K
RECURSIVE Text(_), TextAll(_, _)
Par(s) == <<<<"TK_LPAR", "(">>>> \o s \o <<<<"TK_RPAR", ")">>>>
TextAll(as, i) == IF i > Len(as) THEN <<>> ELSE (IF i > 1 THEN <<<<"TK_COMMA", ",">>>> ELSE <<>>) \o Text(as[i]) \o TextAll(as, i + 1)
Op(x) == CHOOSE t \in V : t[2] = x
Text(t) == CASE t[1] = "d" -> <<<<"TK_IDENTIFIER", t[3]>>>>
              [] t[1] = "u" -> Par(<<Op(t[2])>> \o Text(t[3]))
              [] t[1] = "b" -> Par(Text(t[3]) \o <<Op(t[2])>> \o Text(t[4]))
              [] t[1] = "f" -> Text(t[2]) \o Par(TextAll(t[3], 1))
Parsed(s) == LET r == Expr(Append(s, EOFT), 1, 1) IN IF r[1] = Len(s) + 1 THEN r ELSE Fail
\* the tree of a text without parentheses: no operator of looser binding, nor one of the same binding on the right, below a tighter one
Prec(t) == IF t[1] = "b" THEN Binds(Op(t[2])[1]) ELSE 99
RECURSIVE Nested(_)
Nested(t) == t[1] = "b" => /\ Prec(t[3]) >= Prec(t) /\ Prec(t[4]) > Prec(t)
                           /\ Nested(t[3]) /\ Nested(t[4])
Holds == LET r == Parsed(K) IN
         Ok(r) => /\ Parsed(Text(r[2])) = <<Len(Text(r[2])) + 1, r[2]>>
                  /\ (\A i \in DOMAIN K : K[i][1] \notin {"TK_LPAR", "TK_RPAR"}) => Nested(r[2])
=============================================================================
