-------------------------------- MODULE Dsv --------------------------------
(* Files of delimiter-separated values, read character by character (as codes).
   A configuration is [d, q, e: delimiter, quote, escape; hdr, skip; rows: at most so many, -1 for all].
   A column is <<name, type, parameter>>, or <<>> for a column of the file that is not in the table.
   Values are sequences of numbers: <<>> NULL; <<0, codes...>> a string; <<sign, digits...>> an integer or a decimal;
   <<4 v>> a floating-point number v; <<1, 1>> and <<1, -1>> the largest and smallest double; <<0>>/<<1>> a Boolean;
   <<encoding>> a date; <<seconds>> a datetime. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NL == 10
EOF == -1
Null == <<>>
RangeOf(s) == {s[i] : i \in 1..Len(s)}
At(s, p) == IF p <= Len(s) THEN s[p] ELSE EOF
Digit(c) == c >= 48 /\ c <= 57
RECURSIVE To(_, _, _)                       \* the first position from p with a character in S, or the end of the file
To(s, p, S) == IF p > Len(s) THEN p ELSE IF s[p] \in S THEN p ELSE To(s, p + 1, S)
RECURSIVE Digits(_, _)                      \* the first position from p without a digit
Digits(s, p) == IF p > Len(s) THEN p ELSE IF Digit(s[p]) THEN Digits(s, p + 1) ELSE p
CellEnd(s, p, c) == To(s, p, {NL, c.d})
LineEnd(s, p) == To(s, p, {NL})
Line(s, p) == 1 + Cardinality({i \in 1..(IF p - 1 < Len(s) THEN p - 1 ELSE Len(s)) : s[i] = NL})

(* Reading a cell is a value, the position after the cell, and the positions of reports *)
Good(v, p) == [v |-> v, p |-> p, bad |-> {}]
Bad(at, p) == [v |-> Null, p |-> p, bad |-> {at}]

RECURSIVE Quoted(_, _, _, _)                \* the characters of a quoted string from p, and the position after it
Quoted(s, p, c, acc) ==
    IF p > Len(s) THEN <<acc, p>>
    ELSE IF s[p] = c.q
         THEN IF c.e = c.q /\ At(s, p + 1) = c.q THEN Quoted(s, p + 2, c, Append(acc, c.q)) ELSE <<acc, p + 1>>
    ELSE IF s[p] = c.e
         THEN IF p = Len(s) THEN <<acc, p + 1>> ELSE Quoted(s, p + 2, c, Append(acc, s[p + 1]))
    ELSE Quoted(s, p + 1, c, Append(acc, s[p]))

Text(s, p, c) ==
    IF At(s, p) = c.q THEN LET r == Quoted(s, p + 1, c, <<>>) IN Good(<<0>> \o r[1], CellEnd(s, r[2], c))
    ELSE LET e == CellEnd(s, p, c)  f == To(s, p, {NL, c.d, c.q}) IN
         IF f < e THEN Bad(f, e) ELSE Good(<<0>> \o SubSeq(s, p, e - 1), e)
Skipped(s, p, c) == IF At(s, p) = c.q THEN CellEnd(s, Quoted(s, p + 1, c, <<>>)[2], c) ELSE CellEnd(s, p, c)

Bool(s, p, c) ==
    LET e == CellEnd(s, p, c)  t == SubSeq(s, p, e - 1) IN
    IF t = <<84, 82, 85, 69>> THEN Good(<<1>>, e) ELSE IF t = <<70, 65, 76, 83, 69>> THEN Good(<<0>>, e) ELSE Bad(e, e)

RECURSIVE Strip(_)
Strip(t) == IF t # <<>> /\ Head(t) = 0 THEN Strip(Tail(t)) ELSE t
Values(t) == [i \in 1..Len(t) |-> t[i] - 48]
RECURSIVE LessEq(_, _, _)
LessEq(a, b, i) == IF i > Len(a) THEN TRUE ELSE IF a[i] = b[i] THEN LessEq(a, b, i + 1) ELSE a[i] < b[i]
AtMost(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LessEq(a, b, 1))     \* digits without leading zeros
Limit(bytes, neg) == LET k == IF neg THEN 1 ELSE 0 IN
    CASE bytes = 1 -> <<1, 2, 7 + k>> [] bytes = 2 -> <<3, 2, 7, 6, 7 + k>>
      [] bytes = 4 -> <<2, 1, 4, 7, 4, 8, 3, 6, 4, 7 + k>>
      [] bytes = 8 -> <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 7 + k>>
Signed(neg, ds) == IF ds = <<>> THEN <<0>> ELSE <<IF neg THEN -1 ELSE 1>> \o ds
Start(s, p) == IF At(s, p) \in {43, 45} THEN p + 1 ELSE p
IntCell(s, p, c, bytes) ==
    LET b == Start(s, p)  f == Digits(s, b)  e == CellEnd(s, p, c)  ds == Strip(Values(SubSeq(s, b, f - 1)))  neg == At(s, p) = 45 IN
    IF f = e /\ f > b /\ AtMost(ds, Limit(bytes, neg)) THEN Good(Signed(neg, ds), e) ELSE Bad(e, e)
Zeros(n) == [i \in 1..n |-> 0]
Cut(t, n) == IF Len(t) >= n THEN SubSeq(t, 1, n) ELSE t \o Zeros(n - Len(t))
Decimal(s, p, c, scale) ==
    LET b == Start(s, p)  f == Digits(s, b)  dot == At(s, f) = 46  g == IF dot THEN Digits(s, f + 1) ELSE f  e == CellEnd(s, p, c)
        frac == IF dot THEN Values(SubSeq(s, f + 1, g - 1)) ELSE <<>>
        ds == Strip(Values(SubSeq(s, b, f - 1)) \o Cut(frac, scale))  neg == At(s, p) = 45 IN
    IF g = e /\ (f > b \/ frac # <<>>) /\ AtMost(ds, Limit(IF scale = 3 THEN 8 ELSE 4, neg)) THEN Good(Signed(neg, ds), e) ELSE Bad(e, e)
RECURSIVE Number(_, _)
Number(t, n) == IF t = <<>> THEN n ELSE Number(Tail(t), 10 * n + Head(t))
Pow10(n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN 10 ELSE IF n = 2 THEN 100 ELSE 1000
RECURSIVE Blanks(_, _)
Blanks(s, p) == IF At(s, p) = 32 THEN Blanks(s, p + 1) ELSE p
Float(s, p, c) ==
    LET o == Blanks(s, p)  b == Start(s, o)  f == Digits(s, b)  dot == At(s, f) = 46  g == IF dot THEN Digits(s, f + 1) ELSE f  e == CellEnd(s, p, c)
        frac == IF dot THEN Values(SubSeq(s, f + 1, g - 1)) ELSE <<>>
        sign == IF At(s, o) = 45 THEN -1 ELSE 1 IN
    IF SubSeq(s, b, e - 1) = <<49, 101, 57, 57, 57>> THEN Good(<<1, sign>>, e)
    ELSE IF g = e /\ (f > b \/ frac # <<>>) /\ f - b < 8 /\ Len(frac) < 4
         THEN Good(<<sign * (4 * Number(Values(SubSeq(s, b, f - 1)), 0) + (4 * Number(frac, 0)) \div Pow10(Len(frac)))>>, e)
         ELSE Bad(e, e)

(*----- dates: a pattern of digits (48) and separators from p -----*)
RECURSIVE Fits(_, _, _)                     \* how far the pattern fits
Fits(s, p, pat) == IF pat = <<>> THEN p ELSE IF (Head(pat) = 48 /\ Digit(At(s, p))) \/ (Head(pat) # 48 /\ At(s, p) = Head(pat)) THEN Fits(s, p + 1, Tail(pat)) ELSE p
D == 48
DatePattern == <<D, D, D, D, 45, D, D, 45, D, D>>
TimePattern == DatePattern \o <<32, D, D, 58, D, D, 58, D, D>>
Nat2(s, p) == (10 * (s[p] - 48)) + s[p + 1] - 48
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Before == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
DayNo(y, m, d) == (365 * (y - 1970)) + Cardinality({x \in 1970..(y - 1) : Leap(x)}) + Before[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0) + d - 1
Calendar(s, p, c, pat) ==
    LET quote == At(s, p) = c.q  b == IF quote THEN p + 1 ELSE p
        b1 == IF At(s, b) = 45 THEN b + 1 ELSE b
        f == Fits(s, b1, pat)
        closed == ~quote \/ At(s, f) = c.q
        y == (100 * Nat2(s, b1)) + Nat2(s, b1 + 2)  m == Nat2(s, b1 + 5)  d == Nat2(s, b1 + 8)
        date == m >= 1 /\ m <= 12 /\ d >= 1 /\ d <= 31
        hh == Nat2(s, b1 + 11)  mm == Nat2(s, b1 + 14)  ss == Nat2(s, b1 + 17)
        after == IF quote THEN LET z == To(s, f, {NL, c.q}) IN IF At(s, z) = c.q THEN z + 1 ELSE z ELSE f
        e == CellEnd(s, after, c) IN
    IF f - b1 < Len(pat) \/ ~closed THEN Bad(f, e)
    ELSE IF ~date THEN Bad(f, e)
    ELSE IF pat = DatePattern THEN Good(<<(IF b1 > b THEN -1 ELSE 1) * y * 512 + (m * 32) + d>>, e)
    ELSE IF hh > 23 \/ mm > 59 \/ ss > 59 THEN Bad(f, e)
    ELSE Good(<<(86400 * DayNo(y, m, d)) + (3600 * hh) + (60 * mm) + ss>>, e)

Cell(s, p, c, col) ==
    CASE col[2] = "c" -> LET r == Text(s, p, c) IN [r EXCEPT !.v = IF Len(r.v) > col[3] + 1 THEN SubSeq(r.v, 1, col[3] + 1) ELSE r.v]    \* cut to its length
      [] col[2] = "b" -> Bool(s, p, c)
      [] col[2] = "i" -> IntCell(s, p, c, col[3])
      [] col[2] = "n" -> Decimal(s, p, c, col[3])
      [] col[2] \in {"f", "d"} -> Float(s, p, c)
      [] col[2] = "date" -> Calendar(s, p, c, DatePattern)
      [] col[2] = "dt" -> Calendar(s, p, c, TimePattern)

(* a record: the cells of columns i.. from p; row is the row so far.  Result: the row (or "none"), the position of the
   line's end, the positions of the reports. *)
RECURSIVE Record(_, _, _, _, _, _, _, _)
Record(s, p, c, cols, idx, i, row, bad) ==
    IF i > Len(cols)
    THEN IF At(s, p) \in {NL, EOF} THEN [ok |-> TRUE, row |-> row, p |-> p, bad |-> bad]
         ELSE [ok |-> FALSE, row |-> row, p |-> LineEnd(s, p), bad |-> bad \cup {p}]                    \* too many
    ELSE IF i > 1 /\ At(s, p) # c.d THEN [ok |-> FALSE, row |-> row, p |-> LineEnd(s, p), bad |-> bad \cup {p}]    \* too few
    ELSE LET q == IF i > 1 THEN p + 1 ELSE p IN
         IF idx[i] = 0 THEN Record(s, Skipped(s, q, c), c, cols, idx, i + 1, row, bad)
         ELSE IF At(s, q) = c.d \/ (i = Len(cols) /\ At(s, q) \in {NL, EOF})
              THEN Record(s, q, c, cols, idx, i + 1, [row EXCEPT ![idx[i]] = Null], bad)
         ELSE LET r == Cell(s, q, c, cols[i]) IN Record(s, r.p, c, cols, idx, i + 1, [row EXCEPT ![idx[i]] = r.v], bad \cup r.bad)

RECURSIVE Records(_, _, _, _, _, _, _, _)
Records(s, p, c, cols, idx, width, rows, bad) ==
    IF p > Len(s) \/ Len(rows) = c.rows THEN <<rows, bad>>
    ELSE LET r == Record(s, p, c, cols, idx, 1, [i \in 1..width |-> Null], {}) IN
         Records(s, r.p + 1, c, cols, idx, width, IF r.ok THEN Append(rows, r.row) ELSE rows, bad \cup r.bad)

RECURSIVE Names(_, _, _)
Names(s, p, c) == IF At(s, p) \in {NL, EOF} THEN <<>>
                  ELSE LET e == CellEnd(s, p, c) IN <<SubSeq(s, p, e - 1)>> \o (IF At(s, e) = c.d THEN Names(s, e + 1, c) ELSE <<>>)
Index(table, name) == IF \E i \in 1..Len(table) : table[i][1] = name THEN CHOOSE i \in 1..Len(table) : table[i][1] = name ELSE 0
Read(s, c, table) ==
    LET width == Len(table)  body == LineEnd(s, 1) + 1 IN
    IF c.hdr /\ ~c.skip
    THEN LET names == Names(s, 1, c)  idx == [i \in 1..Len(names) |-> Index(table, names[i])] IN
         Records(s, body, c, [i \in 1..Len(names) |-> IF idx[i] = 0 THEN <<>> ELSE table[idx[i]]], idx, width, <<>>, {})
    ELSE Records(s, IF c.skip THEN body ELSE 1, c, table, [i \in 1..width |-> i], width, <<>>, {})
=============================================================================
