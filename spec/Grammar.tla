------------------------------ MODULE Grammar ------------------------------
(* The syntax tree of a sequence of commands.  A token is [type, text, value]; K always ends with TK_EOF.  Every rule maps a
   position to <<position after it, tree>>, or to Fail.  Binary operators nest by precedence and to the left.            *)
EXTENDS Integers, Sequences
Fail == <<0, <<"fail">>>>
Ty(K, i) == K[i][1]
Tx(K, i) == K[i][2]
Is(K, i, t) == i # 0 /\ K[i][1] = t
\* the position after token t at i, 0 if it is another one
Eat(K, i, t) == IF Is(K, i, t) THEN i + 1 ELSE 0
RECURSIVE EatAll(_, _, _)
EatAll(K, i, ts) == IF ts = <<>> \/ i = 0 THEN i ELSE EatAll(K, Eat(K, i, Head(ts)), Tail(ts))
Ok(r) == r[1] # 0
INTS == {"TK_DEC_INT", "TK_OCT_INT", "TK_HEX_INT"}
CONSTANTS_ == INTS \cup {"TK_Null", "TK_True", "TK_False", "TK_STRING_LITERAL", "TK_DATE", "TK_DATE_TIME", "TK_DEC_FLOAT", "TK_HEX_FLOAT"}
\* how tightly a binary operator binds; 0: not a binary operator
Binds(t) == CASE t = "TK_Or" -> 1 [] t = "TK_And" -> 2
              [] t \in {"TK_Like", "TK_BANG_EQUAL", "TK_EQUAL", "TK_LESS", "TK_GREATER", "TK_LESS_EQUAL", "TK_GREATER_EQUAL"} -> 4
              [] t = "TK_DOTDOT" -> 5 [] t \in {"TK_PLUS", "TK_MINUS"} -> 6
              [] t \in {"TK_ASTERISK", "TK_SLASH", "TK_PERCENT"} -> 7 [] OTHER -> 0
NOT_ == 3
SIGN == 8
\* items separated by commas, each read by Item
List(K, i, Item(_, _)) == LET RECURSIVE More(_, _)
                              More(j, acc) == LET a == Item(K, j) IN
                                              IF ~Ok(a) THEN Fail
                                              ELSE IF Is(K, a[1], "TK_COMMA") THEN More(a[1] + 1, Append(acc, a[2]))
                                              ELSE <<a[1], Append(acc, a[2])>>
                          IN More(i, <<>>)
RECURSIVE Expr(_, _, _), Select(_, _)
Designator(K, i) == IF ~Is(K, i, "TK_IDENTIFIER") THEN Fail
                    ELSE IF ~Is(K, i + 1, "TK_DOT") THEN <<i + 1, <<"d", "", Tx(K, i)>>>>
                    ELSE IF Is(K, i + 2, "TK_IDENTIFIER") THEN <<i + 3, <<"d", Tx(K, i), Tx(K, i + 2)>>>> ELSE Fail
Expr0(K, i) == Expr(K, i, 1)
\* a primary or prefixed expression
Prefix(K, i) ==
    LET t == Ty(K, i) IN
    CASE t = "TK_IDENTIFIER" -> Designator(K, i)
      [] t \in CONSTANTS_ -> <<i + 1, <<"k", t, Tx(K, i)>>>>
      [] t = "TK_LPAR" -> LET q == Is(K, i + 1, "TK_Select")
                              a == IF q THEN Select(K, i + 1) ELSE Expr0(K, i + 1)
                          IN IF Ok(a) /\ Is(K, a[1], "TK_RPAR") THEN <<a[1] + 1, IF q THEN <<"q", a[2]>> ELSE a[2]>> ELSE Fail
      [] t \in {"TK_PLUS", "TK_MINUS", "TK_TILDE", "TK_Not"} ->
             LET a == Expr(K, i + 1, IF t = "TK_Not" THEN NOT_ ELSE SIGN) IN IF Ok(a) THEN <<a[1], <<"u", Tx(K, i), a[2]>>>> ELSE Fail
      [] OTHER -> Fail
\* any number of argument lists
RECURSIVE Calls(_, _)
Calls(K, a) == IF ~Ok(a) \/ ~Is(K, a[1], "TK_LPAR") THEN a
               ELSE LET i == a[1] + 1
                        b == CASE Is(K, i, "TK_ASTERISK") -> <<i + 1, <<>>>>
                               [] Is(K, i, "TK_RPAR") -> <<i, <<>>>>
                               [] OTHER -> List(K, i, Expr0)
                    IN IF Ok(b) /\ Is(K, b[1], "TK_RPAR") THEN Calls(K, <<b[1] + 1, <<"f", a[2], b[2]>>>>) ELSE Fail
RECURSIVE Climb(_, _, _)
Climb(K, a, p) == IF ~Ok(a) THEN Fail
                  ELSE LET q == Binds(Ty(K, a[1])) IN
                       IF q = 0 \/ q < p THEN a
                       ELSE LET b == Expr(K, a[1] + 1, q + 1) IN
                            IF Ok(b) THEN Climb(K, <<b[1], <<"b", Tx(K, a[1]), a[2], b[2]>>>>, p) ELSE Fail
\* an expression whose operators bind at least as tightly as p
Expr(K, i, p) == Climb(K, Calls(K, Prefix(K, i)), p)

\* [AS] identifier, if there is one
Alias(K, a) == IF ~Ok(a) THEN Fail
               ELSE IF Is(K, a[1], "TK_As") THEN (IF Is(K, a[1] + 1, "TK_IDENTIFIER") THEN <<a[1] + 2, <<a[2], Tx(K, a[1] + 1)>>>> ELSE Fail)
               ELSE IF Is(K, a[1], "TK_IDENTIFIER") THEN <<a[1] + 1, <<a[2], Tx(K, a[1])>>>>
               ELSE <<a[1], <<a[2], "">>>>
Aliased(K, i) == Alias(K, Expr0(K, i))
Source(K, i) == IF Is(K, i, "TK_LPAR")
                THEN LET a == Select(K, i + 1) IN
                     IF ~Ok(a) \/ ~Is(K, a[1], "TK_RPAR") THEN Fail
                     ELSE LET j == IF Is(K, a[1] + 1, "TK_As") THEN a[1] + 2 ELSE a[1] + 1 IN
                          IF Is(K, j, "TK_IDENTIFIER") THEN <<j + 1, <<a[2], Tx(K, j)>>>> ELSE Fail
                ELSE IF Is(K, i, "TK_IDENTIFIER") THEN Alias(K, <<i + 1, Tx(K, i)>>) ELSE Fail
Key(K, i) == LET a == Expr0(K, i) IN
             IF ~Ok(a) THEN Fail
             ELSE IF Is(K, a[1], "TK_Descending") THEN <<a[1] + 1, <<a[2], "DESC">>>>
             ELSE <<IF Is(K, a[1], "TK_Ascending") THEN a[1] + 1 ELSE a[1], <<a[2], "ASC">>>>
One(K, i) == LET a == Expr0(K, i) IN IF Ok(a) THEN <<a[1], <<a[2]>>>> ELSE Fail
SelectList(K, i) == IF ~Is(K, i, "TK_ASTERISK") THEN LET a == List(K, i, Aliased) IN IF Ok(a) THEN <<a[1], <<0, a[2]>>>> ELSE Fail
                    ELSE IF ~Is(K, i + 1, "TK_COMMA") THEN <<i + 1, <<1, <<>>>>>>
                    ELSE LET a == List(K, i + 2, Aliased) IN IF Ok(a) THEN <<a[1], <<1, a[2]>>>> ELSE Fail
Limit(K, i) == IF i = 0 \/ Ty(K, i) \notin INTS THEN Fail
               ELSE IF ~Is(K, i + 1, "TK_Offset") THEN <<i + 1, <<Tx(K, i), "">>>>
               ELSE IF Ty(K, i + 2) \in INTS THEN <<i + 3, <<Tx(K, i), Tx(K, i + 2)>>>> ELSE Fail
\* a clause that may be absent; keywords ks; s is what came before: the tree gets the clause appended
Clause(K, s, ks, Body(_, _)) == IF ~Ok(s) THEN Fail
                                ELSE IF ~Is(K, s[1], Head(ks)) THEN <<s[1], Append(s[2], <<>>)>>
                                ELSE LET j == EatAll(K, s[1], ks) a == IF j = 0 THEN Fail ELSE Body(K, j) IN
                                     IF Ok(a) THEN <<a[1], Append(s[2], a[2])>> ELSE Fail
Sources(K, i) == List(K, i, Source)
Groups(K, i) == List(K, i, Aliased)
Keys(K, i) == List(K, i, Key)
Select(K, i) == IF ~Is(K, i, "TK_Select") THEN Fail
                ELSE LET a == SelectList(K, i + 1)
                         s0 == IF Ok(a) THEN <<a[1], <<"select", a[2]>>>> ELSE Fail
                         s1 == Clause(K, s0, <<"TK_From">>, Sources)
                         s2 == Clause(K, s1, <<"TK_Where">>, One)
                         s3 == Clause(K, s2, <<"TK_Group", "TK_By">>, Groups)
                         s4 == Clause(K, s3, <<"TK_Having">>, One)
                         s5 == Clause(K, s4, <<"TK_Order", "TK_By">>, Keys)
                     IN Clause(K, s5, <<"TK_Limit">>, Limit)

\* data types and column constraints
DataType(K, i) ==
    LET t == Ty(K, i) IN
    CASE t = "TK_Bool" -> <<i + 1, <<"bool">>>> [] t = "TK_Date" -> <<i + 1, <<"date">>>> [] t = "TK_Datetime" -> <<i + 1, <<"datetime">>>>
      [] t = "TK_Float" -> <<i + 1, <<"float">>>> [] t = "TK_Double" -> <<i + 1, <<"double">>>>
      [] t \in {"TK_Char", "TK_Varchar", "TK_Int"} ->
             IF EatAll(K, i + 1, <<"TK_LPAR", "TK_DEC_INT", "TK_RPAR">>) = 0 THEN Fail
             ELSE <<i + 4, <<CASE t = "TK_Char" -> "char" [] t = "TK_Varchar" -> "varchar" [] OTHER -> "int", K[i + 2][3]>>>>
      [] t = "TK_Decimal" ->
             IF EatAll(K, i + 1, <<"TK_LPAR", "TK_DEC_INT", "TK_RPAR">>) # 0 THEN <<i + 4, <<"decimal", K[i + 2][3], 0>>>>
             ELSE IF EatAll(K, i + 1, <<"TK_LPAR", "TK_DEC_INT", "TK_COMMA">>) # 0 /\ Ty(K, i + 4) \in {"TK_DEC_INT", "TK_OCT_INT"} /\ Is(K, i + 5, "TK_RPAR") THEN <<i + 6, <<"decimal", K[i + 2][3], K[i + 4][3]>>>>
             ELSE Fail
      [] OTHER -> Fail
RECURSIVE Constraints(_, _)
Constraints(K, s) ==
    LET i == s[1]
        t == Ty(K, i)
        c == CASE t = "TK_Primary" -> <<Eat(K, i + 1, "TK_Key"), <<"primary">>>>
               [] t = "TK_Not" -> <<Eat(K, i + 1, "TK_Null"), <<"notnull">>>>
               [] t = "TK_Unique" -> <<i + 1, <<"unique">>>>
               [] t = "TK_Check" -> LET a == IF Is(K, i + 1, "TK_LPAR") THEN Expr0(K, i + 2) ELSE Fail IN
                                    IF Ok(a) THEN <<Eat(K, a[1], "TK_RPAR"), <<"check", a[2]>>>> ELSE Fail
               [] t = "TK_References" -> LET j == EatAll(K, i + 1, <<"TK_IDENTIFIER", "TK_LPAR", "TK_IDENTIFIER", "TK_RPAR">>) IN
                                         IF j = 0 THEN Fail ELSE <<j, <<"ref", Tx(K, i + 1), Tx(K, i + 3)>>>>
               [] OTHER -> <<i, <<"-">>>>
    IN IF ~Ok(c) THEN Fail ELSE IF c[1] = i THEN s ELSE Constraints(K, <<c[1], Append(s[2], c[2])>>)
Column(K, i) == IF ~Is(K, i, "TK_IDENTIFIER") THEN Fail
                ELSE LET ty == DataType(K, i + 1) cs == IF Ok(ty) THEN Constraints(K, <<ty[1], <<>>>>) ELSE Fail IN
                     IF Ok(cs) THEN <<cs[1], <<Tx(K, i), ty[2], cs[2]>>>> ELSE Fail
Name(K, i) == IF Is(K, i, "TK_IDENTIFIER") THEN <<i + 1, Tx(K, i)>> ELSE Fail
\* [IF EXISTS] name {, name}
Dropped(K, i, what) == LET e == Is(K, i, "TK_If")
                           j == IF e THEN EatAll(K, i, <<"TK_If", "TK_Exists">>) ELSE i
                           a == IF j = 0 THEN Fail ELSE List(K, j, Name)
                       IN IF Ok(a) THEN <<a[1], <<what, IF e THEN 1 ELSE 0, a[2]>>>> ELSE Fail
Field(K, i) == IF Is(K, i, "TK_IDENTIFIER") THEN <<i + 1, <<"d", "", Tx(K, i)>>>>
               ELSE IF Is(K, i, "TK_LPAR") THEN Expr0(K, i) ELSE Fail
Index(K, i, unique) ==
    LET c == Is(K, i, "TK_If")
        j == IF c THEN EatAll(K, i, <<"TK_If", "TK_Not", "TK_Exists">>) ELSE i
        named == Is(K, j, "TK_IDENTIFIER")
        k == IF j = 0 \/ (c /\ ~named) THEN 0 ELSE IF named THEN j + 1 ELSE j
        t == EatAll(K, k, <<"TK_On", "TK_IDENTIFIER">>)
        using == Is(K, t, "TK_Using")
        m == IF ~using THEN t ELSE IF Is(K, t + 1, "TK_IDENTIFIER") \/ Is(K, t + 1, "TK_Default") THEN t + 2 ELSE 0
        f == Eat(K, m, "TK_LPAR")
        a == IF f = 0 THEN Fail ELSE List(K, f, Field)
    IN IF Ok(a) /\ Is(K, a[1], "TK_RPAR")
       THEN <<a[1] + 1, <<"create index", unique, IF c THEN 1 ELSE 0, IF named THEN Tx(K, j) ELSE "", Tx(K, t - 1), IF using THEN Tx(K, t + 1) ELSE "", a[2]>>>>
       ELSE Fail
Item(K, i) == CASE Is(K, i, "TK_Default") -> <<i + 1, <<"default">>>>
                [] Is(K, i, "TK_Null") /\ (Is(K, i + 1, "TK_COMMA") \/ Is(K, i + 1, "TK_RPAR")) -> <<i + 1, <<"null">>>>
                [] OTHER -> LET a == Expr0(K, i) IN IF Ok(a) THEN <<a[1], <<"x", a[2]>>>> ELSE Fail
Row(K, i) == LET a == IF Is(K, i, "TK_LPAR") THEN List(K, i + 1, Item) ELSE Fail IN IF Ok(a) /\ Is(K, a[1], "TK_RPAR") THEN <<a[1] + 1, a[2]>> ELSE Fail
Assignment(K, i) == LET a == IF EatAll(K, i, <<"TK_IDENTIFIER", "TK_EQUAL">>) = 0 THEN Fail ELSE Expr0(K, i + 2) IN
                    IF Ok(a) THEN <<a[1], <<Tx(K, i), a[2]>>>> ELSE Fail
Import(K, i) ==
    LET n == EatAll(K, i, <<"TK_Import", "TK_Into", "TK_IDENTIFIER", "TK_Dsv", "TK_STRING_LITERAL">>)
        \* an option with an argument of a type in S: <<position, texts so far>>
        Opt(s, kw, S) == IF ~Ok(s) THEN Fail
                         ELSE IF ~Is(K, s[1], kw) THEN <<s[1], Append(s[2], "")>>
                         ELSE IF Ty(K, s[1] + 1) \in S THEN <<s[1] + 2, Append(s[2], Tx(K, s[1] + 1))>> ELSE Fail
        Flag(s, kw) == IF ~Ok(s) THEN Fail
                       ELSE IF ~Is(K, s[1], kw) THEN <<s[1], Append(s[2], 0)>>
                       ELSE IF Is(K, s[1] + 1, "TK_Header") THEN <<s[1] + 2, Append(s[2], 1)>> ELSE Fail
        STR == {"TK_STRING_LITERAL"}
        a == Opt(IF n = 0 THEN Fail ELSE <<n, <<"import", Tx(K, i + 2), Tx(K, i + 4)>>>>, "TK_Rows", {"TK_DEC_INT", "TK_OCT_INT"})
    IN Flag(Flag(Opt(Opt(Opt(a, "TK_Delimiter", STR), "TK_Escape", STR), "TK_Quote", STR), "TK_Has"), "TK_Skip")
Statement(K, i) ==
    LET t == Ty(K, i) u == Ty(K, i + 1) IN
    CASE t = "TK_Create" /\ u = "TK_Database" -> IF Is(K, i + 2, "TK_IDENTIFIER") THEN <<i + 3, <<"create database", Tx(K, i + 2)>>>> ELSE Fail
      [] t = "TK_Create" /\ u = "TK_Table" ->
             LET a == IF EatAll(K, i + 2, <<"TK_IDENTIFIER", "TK_LPAR">>) = 0 THEN Fail ELSE List(K, i + 4, Column) IN
             IF Ok(a) /\ Is(K, a[1], "TK_RPAR") THEN <<a[1] + 1, <<"create table", Tx(K, i + 2), a[2]>>>> ELSE Fail
      [] t = "TK_Create" /\ u = "TK_Index" -> Index(K, i + 2, 0)
      [] t = "TK_Create" /\ u = "TK_Unique" -> IF Is(K, i + 2, "TK_Index") THEN Index(K, i + 3, 1) ELSE Fail
      [] t = "TK_Drop" /\ u = "TK_Database" ->
             LET e == Is(K, i + 2, "TK_If") j == IF e THEN EatAll(K, i + 2, <<"TK_If", "TK_Exists">>) ELSE i + 2 IN
             IF Is(K, j, "TK_IDENTIFIER") THEN <<j + 1, <<"drop database", IF e THEN 1 ELSE 0, Tx(K, j)>>>> ELSE Fail
      [] t = "TK_Drop" /\ u = "TK_Table" -> Dropped(K, i + 2, "drop table")
      [] t = "TK_Drop" /\ u = "TK_Index" -> Dropped(K, i + 2, "drop index")
      [] t = "TK_Use" -> IF Is(K, i + 1, "TK_IDENTIFIER") THEN <<i + 2, <<"use", Tx(K, i + 1)>>>> ELSE Fail
      [] t = "TK_Select" -> Select(K, i)
      [] t = "TK_Insert" -> LET a == IF EatAll(K, i, <<"TK_Insert", "TK_Into", "TK_IDENTIFIER", "TK_Values">>) = 0 THEN Fail ELSE List(K, i + 4, Row) IN
                            IF Ok(a) THEN <<a[1], <<"insert", Tx(K, i + 2), a[2]>>>> ELSE Fail
      [] t = "TK_Update" -> LET a == IF EatAll(K, i, <<"TK_Update", "TK_IDENTIFIER", "TK_Set">>) = 0 THEN Fail ELSE List(K, i + 3, Assignment) IN
                            Clause(K, IF Ok(a) THEN <<a[1], <<"update", Tx(K, i + 1), a[2]>>>> ELSE Fail, <<"TK_Where">>, One)
      [] t = "TK_Delete" -> IF EatAll(K, i, <<"TK_Delete", "TK_From", "TK_IDENTIFIER">>) = 0 THEN Fail
                            ELSE Clause(K, <<i + 3, <<"delete", Tx(K, i + 2)>>>>, <<"TK_Where">>, One)
      [] t = "TK_Import" -> Import(K, i)
      [] OTHER -> Fail
\* an instruction \name argument ... : the words of its text
RECURSIVE Words(_, _, _, _)
Words(s, i, from, acc) ==      \* the current word starts at from (0: none)
    LET end == i > Len(s) blank == end \/ SubSeq(s, i, i) \in {" ", "\n"} IN
    IF ~blank THEN Words(s, i + 1, IF from = 0 THEN i ELSE from, acc)
    ELSE LET a == IF from = 0 THEN acc ELSE Append(acc, SubSeq(s, from, i - 1)) IN IF end THEN a ELSE Words(s, i + 1, 0, a)
\* the name is what follows the backslash, possibly nothing
Instruction(s) == LET w == Words(s, 2, 0, <<>>) IN IF Len(s) = 1 \/ SubSeq(s, 2, 2) \in {" ", "\n"} THEN <<"">> \o w ELSE w
Command(K, i) == CASE Is(K, i, "TK_SEMICOL") -> <<i + 1, <<"empty">>>>
                   [] Is(K, i, "TK_INSTRUCTION") -> <<Eat(K, i + 1, "TK_SEMICOL"), <<"instruction", Tx(K, i), Instruction(Tx(K, i))>>>>
                   [] OTHER -> LET a == Statement(K, i) IN IF Ok(a) THEN <<Eat(K, a[1], "TK_SEMICOL"), a[2]>> ELSE Fail
RECURSIVE Program(_, _, _)
Program(K, i, acc) == IF Is(K, i, "TK_EOF") THEN <<i, acc>>
                      ELSE LET a == Command(K, i) IN IF Ok(a) THEN Program(K, a[1], Append(acc, a[2])) ELSE Fail
(* Printing does not tell (NULL) from NULL as a value to insert: both are the same value. *)
Same(t) == IF t[1] # "insert" THEN t
           ELSE <<"insert", t[2], [r \in DOMAIN t[3] |-> [k \in DOMAIN t[3][r] |->
                    IF t[3][r][k][1] = "x" /\ t[3][r][k][2][1] = "k" /\ t[3][r][k][2][2] = "TK_Null" THEN <<"null">> ELSE t[3][r][k]]]>>
SameAll(p) == [i \in DOMAIN p |-> Same(p[i])]
=============================================================================
