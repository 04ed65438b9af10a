------------------------------- MODULE Types -------------------------------
(* The typing rules of expressions (semantics.md).
   A type is <<"int", bytes>>, <<"float">>, <<"double">>, <<"decimal", precision, scale>>, <<"char", n>>, <<"varchar", n>>,
   <<"bool">>, <<"date">>, <<"datetime">>, <<"none">> (of NULL) or <<"error">>; a typing is <<type, category>>, the category
   being "scalar", "vector" or "-" (of the last two).
   An expression is typed in a context [cols, stage, keys, outs]: the columns of the source (name -> type), the clause the
   expression stands in, and the names of the grouping keys (name -> typing).
   Trees are those of Grammar.tla. *)
EXTENDS Integers, Sequences, FiniteSets
ERR == <<<<"error">>, "-">>
IsErr(t) == t[1][1] = "error"
Sc(ty) == <<ty, "scalar">>
Chars == "0123456789abcdef"
Ch(s, i) == SubSeq(s, i, i)
DigitOf(c) == CASE c = "A" -> 10 [] c = "B" -> 11 [] c = "C" -> 12 [] c = "D" -> 13 [] c = "E" -> 14 [] c = "F" -> 15
                [] OTHER -> (CHOOSE i \in 1..16 : Ch(Chars, i) = c) - 1
\* the numbers of a text, and its value cut off at Top, in the given base
RECURSIVE Value(_, _, _, _, _)
Value(s, i, base, v, Top) == IF i > Len(s) THEN v
    ELSE LET d == DigitOf(Ch(s, i)) IN IF v > (Top - d) \div base THEN Top + 1 ELSE Value(s, i + 1, base, v * base + d, Top)
\* does the literal stand for a value of 32 bits?  (checked against 2^31 - 2 plus the one missing)
Fits(ty, s) ==
    LET base == CASE ty = "TK_HEX_INT" -> 16 [] ty = "TK_OCT_INT" -> 8 [] OTHER -> 10
        from == IF ty = "TK_HEX_INT" THEN 3 ELSE 1
        v == Value(s, from, base, 0, 2147483646) IN
    \/ v # 2147483647
    \/ LET w == Value(SubSeq(s, 1, Len(s) - 1), from, base, 0, 2147483646) IN
       w = 2147483647 \div base /\ DigitOf(Ch(s, Len(s))) = 2147483647 % base
\* the length of the string a literal stands for: escapes of a backslash, a quote and n count once
RECURSIVE StrLen(_, _)
StrLen(s, i) == IF i >= Len(s) THEN 0
                ELSE IF Ch(s, i) = "\\" /\ Ch(s, i + 1) \in {"\\", "\"", "n"} THEN 1 + StrLen(s, i + 2) ELSE 1 + StrLen(s, i + 1)
Num2(s, i) == 10 * DigitOf(Ch(s, i)) + DigitOf(Ch(s, i + 1))
Days(m) == CASE m = 2 -> 29 [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
\* d'[-]YYYY-MM-DD'; n is the position of the character after DD
GoodDate(s, n) == LET m == Num2(s, n - 5)  d == Num2(s, n - 2) IN
                  /\ \E i \in n - 10..n - 7 : Ch(s, i) # "0"
                  /\ m \in 1..12 /\ d \in 1..Days(m)
GoodTime(s) == LET n == Len(s) IN Num2(s, n - 8) < 24 /\ Num2(s, n - 5) < 60 /\ Num2(s, n - 2) < 60
Const(ty, s) ==
    CASE ty = "TK_Null" -> <<<<"none">>, "-">>
      [] ty = "TK_STRING_LITERAL" -> Sc(<<"char", StrLen(s, 2)>>)
      [] ty = "TK_DATE" -> IF GoodDate(s, Len(s)) THEN Sc(<<"date">>) ELSE ERR
      [] ty = "TK_DATE_TIME" -> IF GoodDate(s, Len(s) - 9) /\ GoodTime(s) THEN Sc(<<"datetime">>) ELSE ERR
      [] ty \in {"TK_True", "TK_False"} -> Sc(<<"bool">>)
      [] ty \in {"TK_DEC_INT", "TK_OCT_INT", "TK_HEX_INT"} -> Sc(<<"int", IF Fits(ty, s) THEN 4 ELSE 8>>)
      [] ty \in {"TK_DEC_FLOAT", "TK_HEX_FLOAT"} -> Sc(<<"double">>)

Numeric(t) == t[1][1] \in {"int", "float", "double", "decimal"}
Str(t) == t[1][1] \in {"char", "varchar"}
Is(t, k) == t[1][1] = k
Primitive(t) == t[2] # "-"
Cat(a, b) == IF a[2] = "vector" \/ b[2] = "vector" THEN "vector" ELSE "scalar"
\* arithmetic: the wider type; decimals win over floats over integers
Bits(t) == CASE t[1] = "int" -> 8 * t[2] [] t[1] = "float" -> 32 [] t[1] = "double" -> 64 [] OTHER -> 0
Digits(t) == IF t[1] = "decimal" THEN t[2] ELSE (Bits(t) * 30103) \div 100000
Scale(t) == IF t[1] = "decimal" THEN t[3] ELSE 0
Max(a, b) == IF a > b THEN a ELSE b
JoinTypes(a, b) ==
    IF a[1] = "decimal" \/ b[1] = "decimal" THEN <<"decimal", Max(Digits(a), Digits(b)), Max(Scale(a), Scale(b))>>
    ELSE LET n == Max(Bits(a), Bits(b)) IN
         IF a[1] = "int" /\ b[1] = "int" THEN <<"int", n \div 8>> ELSE IF n <= 32 THEN <<"float">> ELSE <<"double">>
Comparable(a, b) == \/ Numeric(a) /\ Numeric(b)
                    \/ Str(a) /\ Str(b)
                    \/ \E k \in {"bool", "date", "datetime"} : Is(a, k) /\ Is(b, k)
Ordered(a, b) == Comparable(a, b) /\ ~Is(a, "bool")

Unary(op, a) == IF IsErr(a) THEN ERR
                ELSE IF op = "NOT" THEN (IF Is(a, "bool") THEN a ELSE ERR) ELSE IF Numeric(a) THEN a ELSE ERR
Binary(op, a, b) ==
    LET bool == <<<<"bool">>, Cat(a, b)>> IN
    CASE IsErr(a) \/ IsErr(b) -> ERR
      [] op \in {"+", "-", "*", "/", "%"} -> IF Numeric(a) /\ Numeric(b) THEN <<JoinTypes(a[1], b[1]), Cat(a, b)>> ELSE ERR
      [] op = ".." -> IF Str(a) /\ Str(b) THEN <<<<"char", a[1][2] + b[1][2]>>, Cat(a, b)>> ELSE ERR
      [] op \in {"<", "<=", ">", ">="} -> IF Ordered(a, b) THEN bool ELSE ERR
      [] op \in {"=", "!="} -> IF Comparable(a, b) THEN bool ELSE ERR
      [] op = "LIKE" -> IF Str(a) /\ Str(b) THEN bool ELSE ERR
      [] op \in {"AND", "OR"} -> IF Is(a, "bool") /\ Is(b, "bool") THEN bool ELSE ERR

\* aggregates have a place only where groups are at hand
Aggregates == {"MIN", "MAX", "SUM", "AVG", "COUNT"}
Apply(fn, args, ctx) ==
    IF \E i \in 1..Len(args) : IsErr(args[i]) THEN ERR
    ELSE IF fn \in Aggregates /\ ctx.stage \in {"where", "group by"} THEN ERR
    ELSE CASE fn = "COUNT" -> IF Len(args) <= 1 THEN Sc(<<"int", 8>>) ELSE ERR
           [] fn = "ISNULL" -> IF Len(args) = 1 /\ Primitive(args[1]) THEN <<<<"bool">>, args[1][2]>> ELSE ERR
           [] fn \in {"MIN", "MAX", "SUM", "AVG"} ->
                IF Len(args) # 1 \/ ~Numeric(args[1]) THEN ERR
                ELSE LET t == args[1][1] IN
                     Sc(CASE fn \in {"MIN", "MAX"} -> t
                          [] fn = "AVG" -> <<"double">>
                          [] t[1] = "int" -> <<"int", 8>>
                          [] t[1] = "decimal" -> <<"decimal", 19, t[3]>>
                          [] OTHER -> <<"double">>)
           [] OTHER -> ERR

\* the constant expressions
RECURSIVE Constant(_)
Constant(e) == CASE e[1] = "k" -> TRUE
                 [] e[1] = "u" -> Constant(e[3])
                 [] e[1] = "b" -> Constant(e[3]) /\ Constant(e[4])
                 [] e[1] = "q" -> e[2][3] = <<>> /\ Constant(e[2][2][2][1][1])
                 [] OTHER -> FALSE
RECURSIVE Typing(_, _), Query(_, _)
Column(e, ctx) ==
    IF e[2] = "" /\ e[3] \in DOMAIN ctx.keys THEN ctx.keys[e[3]]
    ELSE IF e[2] \in {"", ctx.source} /\ e[3] \in DOMAIN ctx.cols THEN <<ctx.cols[e[3]], "vector">>
    ELSE ERR
Typing(e, ctx) ==
    CASE e[1] = "d" -> Column(e, ctx)
      [] e[1] = "k" -> Const(e[2], e[3])
      [] e[1] = "u" -> Unary(e[2], Typing(e[3], ctx))
      [] e[1] = "b" -> Binary(e[2], Typing(e[3], ctx), Typing(e[4], ctx))
      [] e[1] = "f" -> IF e[2][1] # "d" \/ e[2][2] # "" THEN ERR
                       ELSE Apply(e[2][3], [i \in 1..Len(e[3]) |-> Typing(e[3][i], ctx)], ctx)
      [] e[1] = "q" -> IF ctx.stage = "group by" \/ ctx.stage = "order by" THEN ERR ELSE Query(e[2], ctx)
      [] OTHER -> ERR
\* a statement over the columns of at most one table
Ctx(s, db) == LET f == s[3] IN
    [source |-> IF f = <<>> THEN "" ELSE IF f[1][2] # "" THEN f[1][2] ELSE f[1][1],
     cols |-> IF f = <<>> THEN [x \in {} |-> 0] ELSE db[f[1][1]], stage |-> "select", keys |-> [x \in {} |-> 0], db |-> db]
In(stage, ctx) == [ctx EXCEPT !.stage = stage]
KeyName(k) == IF k[2] # "" THEN k[2] ELSE IF k[1][1] = "d" THEN k[1][3] ELSE ""
\* does everything before the SELECT clause have a proper type?
Bool(e, ctx) == LET t == Typing(e, ctx) IN Is(t, "bool")
Grouped(s, ctx) == LET K == {i \in 1..Len(s[5]) : KeyName(s[5][i]) # ""} IN
    [ctx EXCEPT !.keys = [n \in {KeyName(s[5][i]) : i \in K} |->
        LET t == Typing(s[5][CHOOSE i \in K : KeyName(s[5][i]) = n][1], In("group by", ctx)) IN <<t[1], "scalar">>]]
Grouping(s) == s[5] # <<>> \/ s[6] # <<>>
Items(s, ctx) == [i \in 1..Len(s[2][2]) |-> Typing(s[2][2][i][1], In("select", Grouped(s, ctx)))]
Clauses(s, ctx) ==
    /\ s[4] # <<>> => Bool(s[4][1], In("where", ctx))
    /\ \A i \in 1..Len(s[5]) : Typing(s[5][i][1], In("group by", ctx))[2] = "vector"
    /\ s[6] # <<>> => LET t == Typing(s[6][1], In("having", Grouped(s, ctx))) IN t = Sc(<<"bool">>)
    /\ LET ts == Items(s, ctx)
           M == {i \in 1..Len(ts) : ~Constant(s[2][2][i][1]) /\ s[2][2][i][1][1] # "q"} IN
       /\ \A i \in 1..Len(ts) : ~IsErr(ts[i]) /\ (Grouping(s) => ts[i][2] # "vector")
       /\ ~\E i, j \in M : ts[i][2] = "vector" /\ ts[j][2] = "scalar"
    /\ \A i \in 1..Len(s[7]) : Typing(s[7][i][1], In("order by", Grouped(s, ctx)))[2] = (IF Grouping(s) THEN "scalar" ELSE "vector")
\* a nested query is one scalar: a constant without FROM, or one aggregate without GROUP BY
Query(s, ctx) ==
    LET c == Ctx(s, ctx.db)  it == Items(s, c)  e == s[2][2][1][1] IN
    IF ~Clauses(s, c) \/ Len(it) # 1 THEN ERR
    ELSE IF it[1][2] # "scalar" THEN ERR
    ELSE IF (Constant(e) /\ s[3] = <<>>) \/ (e[1] = "f" /\ s[5] = <<>>) THEN it[1] ELSE ERR
Accepts(s, db) == Clauses(s, Ctx(s, db))

----------------------------------------------------------------------------
(* Storage: size and alignment in bits *)
PowersOfTwo == {8, 16, 32, 64}
CeilPow2(n) == CHOOSE p \in PowersOfTwo : p >= n /\ \A q \in PowersOfTwo : q >= n => q >= p
DecBits(p) == IF (p * 332193) % 100000 = 0 THEN (p * 332193) \div 100000 ELSE (p * 332193) \div 100000 + 1
Size(t) == CASE t[1] = "bool" -> 1
             [] t[1] = "int" -> 8 * t[2]
             [] t[1] = "float" -> 32
             [] t[1] = "double" -> 64
             [] t[1] = "decimal" -> CeilPow2(DecBits(t[2]))
             [] t[1] = "char" -> 8 * t[2]
             [] t[1] = "varchar" -> 8 * (t[2] + 1)
             [] t[1] = "date" -> 32
             [] t[1] = "datetime" -> 64
Align(t) == IF t[1] \in {"char", "varchar"} THEN 8 ELSE Size(t)
\* the numbers a type can hold: <<digits before the point, digits after it>>, of integers bits
Narrower(a, b) == \* a cannot hold every value of b that arithmetic keeps exact
    \/ b[1] = "decimal" /\ (a[1] # "decimal" \/ Digits(a) < Digits(b) \/ Scale(a) < Scale(b))
    \/ b[1] \in {"int", "float", "double"} /\ a[1] # "decimal" /\ Bits(a) < Bits(b)
    \/ b[1] \in {"float", "double"} /\ a[1] = "int"
=============================================================================
