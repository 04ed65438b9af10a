-------------------------------- MODULE Sql --------------------------------
(* What SQL queries mean: values with NULL, expressions in three-valued logic, and queries as maps from databases to
   bags of rows, of which ORDER BY and LIMIT permit certain sequences.

   Values     <<0>> NULL, <<1,n>> INT, <<2,c1,..,ck>> string of codes, <<3,b>> BOOL, <<4,u,s>> DECIMAL(_,s), <<5,n>> DATE,
              <<6,n>> DATETIME, <<7,u>> FLOAT or DOUBLE, where u counts units of 1/10000.
   Database   a function from table names to sequences of rows.
   Expression <<op, ..>>, see Eval.   Query  a record, see Answers. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

NULL == <<0>>
IsNull(v) == v[1] = 0
INT(n) == <<1, n>>
BOOL(b) == <<3, IF b THEN 1 ELSE 0>>
IsTrue(v) == v = <<3, 1>>
IsFalse(v) == v = <<3, 0>>

----------------------------------------------------------------------------
(* Numbers *)
One == 10000
Abs(n) == IF n < 0 THEN -n ELSE n
Sgn(n) == IF n < 0 THEN -1 ELSE 1
Quo(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))   \* division truncates, as in C
Rem(a, b) == a - b * Quo(a, b)
Units(v) == IF v[1] = 1 THEN v[2] * One ELSE v[2]
Power(n) == <<1, 10, 100, 1000, 10000>>[n + 1]
\* cut off the digits behind the s-th one after the point
Trunc(s, u) == Power(4 - s) * Quo(u, Power(4 - s))
\* the kind of an arithmetic result: INT < FLOAT < DECIMAL
Join(a, b) == IF a[1] = 4 \/ b[1] = 4 THEN 4 ELSE IF a[1] = 7 \/ b[1] = 7 THEN 7 ELSE 1
\* and its scale, that of the operand with more digits
Scale(a, b) == LET s == IF a[1] = 4 THEN a[3] ELSE 0  t == IF b[1] = 4 THEN b[3] ELSE 0 IN IF s < t THEN t ELSE s
Num(k, s, u) == IF k = 4 THEN <<4, Trunc(s, u), s>> ELSE <<7, u>>
As(k, s, v) == IF k = 4 THEN Trunc(s, Units(v)) ELSE Units(v)
\* the product of two numbers of units, in units, without leaving 32 bits
MulUnits(x, y) == LET a == Abs(x)  b == Abs(y) IN
    Sgn(x) * Sgn(y) * ((a \div One) * b + (a % One) * (b \div One) + ((a % One) * (b % One)) \div One)
DivUnits(k, s, x, y) == IF k = 4 THEN Power(4 - s) * Quo(Quo(x, Power(4 - s)) * Power(s), Quo(y, Power(4 - s)))
                     ELSE IF y % One = 0 THEN Quo(x, y \div One) ELSE Quo(x * 4, y \div 2500)

Arith(op, a, b) ==
    LET k == Join(a, b)  s == Scale(a, b)  x == As(k, s, a)  y == As(k, s, b) IN
    IF k = 1 THEN INT(CASE op = "+" -> a[2] + b[2] [] op = "-" -> a[2] - b[2] [] op = "*" -> a[2] * b[2]
                        [] op = "/" -> Quo(a[2], b[2]) [] op = "%" -> Rem(a[2], b[2]))
    ELSE Num(k, s, CASE op = "+" -> x + y [] op = "-" -> x - y [] op = "*" -> MulUnits(x, y) [] op = "/" -> DivUnits(k, s, x, y))

----------------------------------------------------------------------------
(* Comparison of two values of comparable types, neither NULL: -1, 0, or 1 *)
CmpInt(x, y) == IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
CmpStr(s, t) ==
    LET n == IF Len(s) < Len(t) THEN Len(s) ELSE Len(t)
        D == {i \in 1..n : s[i] # t[i]} IN
    IF D = {} THEN CmpInt(Len(s), Len(t)) ELSE LET i == Min(D) IN CmpInt(s[i], t[i])
Cmp(a, b) == IF a[1] \in {1, 4, 7} THEN IF a[1] = 1 /\ b[1] = 1 THEN CmpInt(a[2], b[2])
                                        ELSE LET k == Join(a, b)  s == Scale(a, b) IN CmpInt(As(k, s, a), As(k, s, b))
             ELSE IF a[1] = 2 THEN CmpStr(a, b) ELSE CmpInt(a[2], b[2])

\* does the string s from i on match the pattern p from j on?  37 is %, 95 is _ ; positions start at 2, after the tag
RECURSIVE LikeFrom(_, _, _, _)
LikeFrom(s, i, p, j) ==
    IF j > Len(p) THEN i > Len(s)
    ELSE IF p[j] = 37 THEN \E k \in i..Len(s) + 1 : LikeFrom(s, k, p, j + 1)
    ELSE i <= Len(s) /\ (p[j] = 95 \/ p[j] = s[i]) /\ LikeFrom(s, i + 1, p, j + 1)

\* three-valued logic
And3(a, b) == IF IsFalse(a) \/ IsFalse(b) THEN BOOL(FALSE) ELSE IF IsNull(a) \/ IsNull(b) THEN NULL ELSE BOOL(TRUE)
Or3(a, b) == IF IsTrue(a) \/ IsTrue(b) THEN BOOL(TRUE) ELSE IF IsNull(a) \/ IsNull(b) THEN NULL ELSE BOOL(FALSE)
Not3(a) == IF IsNull(a) THEN NULL ELSE BOOL(IsFalse(a))

----------------------------------------------------------------------------
(* Aggregates over a sequence of values, ignoring NULLs *)
SumOf(s, f(_)) == FoldLeft(LAMBDA x, v : x + f(v), 0, s)
\* the mean of units total over n values, rounded down after adding 0.41
Mean(total, n) == (total \div n) + (IF (total % n) * 100 + 41 * n >= 100 * n THEN 1 ELSE 0)

Aggregate(fn, all) ==
    LET s == SelectSeq(all, LAMBDA v : ~IsNull(v)) IN
    CASE fn = "COUNT" -> INT(Len(s))
      [] s = <<>> -> NULL
      [] fn = "SUM" -> IF s[1][1] = 1 THEN INT(SumOf(s, LAMBDA v : v[2])) ELSE [s[1] EXCEPT ![2] = SumOf(s, LAMBDA v : v[2])]
      [] fn = "AVG" -> <<7, Mean(SumOf(s, Units), Len(s))>>
      [] fn = "MIN" -> FoldLeft(LAMBDA m, v : IF Cmp(v, m) < 0 THEN v ELSE m, s[1], s)
      [] fn = "MAX" -> FoldLeft(LAMBDA m, v : IF Cmp(v, m) > 0 THEN v ELSE m, s[1], s)

----------------------------------------------------------------------------
(* Queries.  q.from    sequence of sources <<"t", table>> or <<"q", query>>, whose rows are concatenated
             q.where   expression or <<"none">>
             q.group   sequence of grouping expressions;  q.agg  whether the query groups or aggregates
             q.having  expression or <<"none">> over a group;  q.sel  sequence of expressions over a row or a group
             q.order   sequence of <<expression, 1 or -1>>;  q.lim, q.off  LIMIT (-1: none) and OFFSET
   Row expressions use <<"c", i>>; group expressions use <<"k", i>> for the i-th key and <<"a", fn, argument>>. *)
RECURSIVE Eval(_, _, _, _), Rows(_, _), Sorted(_, _), FromRows(_, _, _)

\* the value of e for a row (or, of the keys of a group and the rows in it)
Eval(db, e, row, grp) ==
    LET op == e[1] IN
    CASE op = "c" \/ op = "k" -> row[e[2]]
      [] op = "v" -> e[2]
      [] op = "a" -> IF e[2] = "COUNT*" THEN INT(Len(grp))
                     ELSE Aggregate(e[2], [i \in 1..Len(grp) |-> Eval(db, e[3], grp[i], <<>>)])
      [] op = "sub" -> LET r == Rows(db, e[2]) IN r[1][1]
      [] op = "AND" -> And3(Eval(db, e[2], row, grp), Eval(db, e[3], row, grp))
      [] op = "OR" -> Or3(Eval(db, e[2], row, grp), Eval(db, e[3], row, grp))
      [] op = "NOT" -> Not3(Eval(db, e[2], row, grp))
      [] op = "ISNULL" -> BOOL(IsNull(Eval(db, e[2], row, grp)))
      [] op = "neg" -> LET a == Eval(db, e[2], row, grp) IN IF IsNull(a) THEN NULL ELSE [a EXCEPT ![2] = -@]
      [] op = "pos" -> Eval(db, e[2], row, grp)
      [] op = "~" -> LET a == Eval(db, e[2], row, grp) IN IF IsNull(a) THEN NULL ELSE INT(-a[2] - 1)
      [] op = ".." -> LET a == Eval(db, e[2], row, grp)  b == Eval(db, e[3], row, grp) IN
                      IF IsNull(a) THEN b ELSE IF IsNull(b) THEN a ELSE a \o Tail(b)   \* NULL adds nothing
      [] OTHER ->
         LET a == Eval(db, e[2], row, grp)  b == Eval(db, e[3], row, grp) IN
         IF IsNull(a) \/ IsNull(b) THEN NULL
         ELSE CASE op \in {"+", "-", "*", "/", "%"} -> Arith(op, a, b)
                [] op = "=" -> BOOL(Cmp(a, b) = 0) [] op = "!=" -> BOOL(Cmp(a, b) # 0)
                [] op = "<" -> BOOL(Cmp(a, b) < 0) [] op = "<=" -> BOOL(Cmp(a, b) <= 0)
                [] op = ">" -> BOOL(Cmp(a, b) > 0) [] op = ">=" -> BOOL(Cmp(a, b) >= 0)
                [] op = "LIKE" -> BOOL(LikeFrom(a, 2, b, 2))

Holds(db, e, row, grp) == e[1] = "none" \/ IsTrue(Eval(db, e, row, grp))

\* all combinations of one row of each source from the i-th on
FromRows(db, from, i) ==
    IF i > Len(from) THEN << <<>> >>
    ELSE LET src == from[i]
             here == IF src[1] = "t" THEN db[src[2]] ELSE Rows(db, src[2])
             rest == FromRows(db, from, i + 1)
             m == Len(rest) IN
         [n \in 1..Len(here) * m |-> here[((n - 1) \div m) + 1] \o rest[((n - 1) % m) + 1]]

\* the units over which SELECT and ORDER BY are evaluated: <<row, <<>>>> or <<keys, rows of the group>>
Scope(db, q) ==
    LET rows == SelectSeq(FromRows(db, q.from, 1), LAMBDA r : Holds(db, q.where, r, <<>>)) IN
    IF ~q.agg THEN [i \in 1..Len(rows) |-> <<rows[i], <<>>>>]
    ELSE LET key == [i \in 1..Len(rows) |-> [j \in 1..Len(q.group) |-> Eval(db, q.group[j], rows[i], <<>>)]]
             keys == IF q.group = <<>> THEN {<<>>} ELSE {key[i] : i \in 1..Len(rows)}
             grp(k) == LET I == SetToSortSeq({i \in 1..Len(rows) : key[i] = k}, <) IN [j \in 1..Len(I) |-> rows[I[j]]]
             grps == SetToSeq({<<k, grp(k)>> : k \in keys})
         IN  SelectSeq(grps, LAMBDA g : Holds(db, q.having, g[1], g[2]))

Project(db, q, unit) == [j \in 1..Len(q.sel) |-> Eval(db, q.sel[j], unit[1], unit[2])]
OrderKey(db, q, unit) == [j \in 1..Len(q.order) |-> Eval(db, q.order[j][1], unit[1], unit[2])]
\* NULL comes first in either direction
Before(q, k1, k2) ==
    LET C(a, b) == IF IsNull(a) \/ IsNull(b) THEN (IF IsNull(a) THEN 0 ELSE 1) - (IF IsNull(b) THEN 0 ELSE 1) ELSE Cmp(a, b)
        D == {j \in 1..Len(q.order) : C(k1[j], k2[j]) # 0} IN
    D # {} /\ LET j == Min(D)  c == C(k1[j], k2[j]) IN
              IF IsNull(k1[j]) \/ IsNull(k2[j]) THEN c < 0 ELSE c * q.order[j][2] < 0

Window(q, n) == LET lo == IF q.off < n THEN q.off ELSE n
                    hi == IF q.lim >= 0 /\ q.lim < n - lo THEN lo + q.lim ELSE n
                IN  <<lo + 1, hi>>

\* one permitted answer, for nested queries: their limits are only used where they determine the bag
Sorted(db, q) ==
    LET S == Scope(db, q)
        P == [i \in 1..Len(S) |-> <<OrderKey(db, q, S[i]), Project(db, q, S[i])>>]
        T == IF q.order = <<>> THEN P ELSE SortSeq(P, LAMBDA x, y : Before(q, x[1], y[1])) IN
    [i \in 1..Len(T) |-> T[i][2]]
Rows(db, q) == LET R == Sorted(db, q)  w == Window(q, Len(R)) IN SubSeq(R, w[1], w[2])

Occurrences(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
IsSubBag(s, t) == \A x \in {s[i] : i \in DOMAIN s} : Occurrences(s, x) <= Occurrences(t, x)

(* Is R a permitted answer?  The rows in scope are divided into classes of equal order keys; a class occupies a range of
   positions, and R holds, within the window, rows of just the class whose range it is. *)
IsAnswer(db, q, R) ==
    LET S == Scope(db, q)
        P == [i \in 1..Len(S) |-> <<OrderKey(db, q, S[i]), Project(db, q, S[i])>>]
        keys == {P[i][1] : i \in 1..Len(P)}
        w == Window(q, Len(S))
        class(k) == LET I == SetToSeq({i \in 1..Len(P) : P[i][1] = k}) IN [j \in 1..Len(I) |-> P[I[j]][2]]
        first(k) == Cardinality({i \in 1..Len(P) : Before(q, P[i][1], k)}) + 1
        \* keys that compare equal but are not identical, such as 1 and 1.0, do not occur: a column has one type
    IN  /\ Len(R) = w[2] - w[1] + 1
        /\ \A k \in keys :
             LET C == class(k)  f == first(k)  l == f + Len(C) - 1
                 a == IF f < w[1] THEN w[1] ELSE f
                 b == IF l > w[2] THEN w[2] ELSE l IN
             a <= b => IsSubBag(SubSeq(R, a - w[1] + 1, b - w[1] + 1), C)
============================================================================
