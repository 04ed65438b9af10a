-------------------------------- MODULE Card --------------------------------
(* Cardinality estimates.  Sizes are unsigned numbers below 2^64, as sequences of digits in base 10000, least first, without
   leading zeros; products saturate.  An injection table maps sets of relations, or a sequence of grouping keys, to sizes. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Base == 10000
RECURSIVE Norm(_)
Norm(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN Norm(SubSeq(a, 1, Len(a) - 1)) ELSE a
Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE Less(_, _, _)                     \* comparing limbs from i downwards
Less(a, b, i) == IF i = 0 THEN FALSE ELSE IF Limb(a, i) = Limb(b, i) THEN Less(a, b, i - 1) ELSE Limb(a, i) < Limb(b, i)
MaxLen(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
Lt(a, b) == Less(a, b, MaxLen(a, b))
Min(a, b) == IF Lt(b, a) THEN b ELSE a
RECURSIVE Column(_, _, _, _)                \* the sum of the products that make up limb k
Column(a, b, k, i) == IF i > k THEN 0 ELSE (Limb(a, i) * Limb(b, k + 1 - i)) + Column(a, b, k, i + 1)
RECURSIVE Carry(_, _, _, _)
Carry(a, b, k, c) == IF k > Len(a) + Len(b) + 1 THEN <<>>
                     ELSE LET s == Column(a, b, k, 1) + c IN <<s % Base>> \o Carry(a, b, k + 1, s \div Base)
Top == <<1615, 955, 737, 6744, 1844>>       \* 2^64 - 1
Mul(a, b) == LET p == Norm(Carry(a, b, 1, 0)) IN IF Lt(Top, p) THEN Top ELSE p
RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, borrow) == IF i > Len(a) THEN <<>>
    ELSE LET d == a[i] - Limb(b, i) - borrow IN <<IF d < 0 THEN d + Base ELSE d>> \o SubFrom(a, b, i + 1, IF d < 0 THEN 1 ELSE 0)
Sub(a, b) == IF Lt(a, b) THEN <<>> ELSE Norm(SubFrom(a, b, 1, 0))
One == <<1>>

\* a data model: the relations it describes, and its size
Lookup(table, key, limit, otherwise) == IF key \in DOMAIN table THEN Min(table[key], limit) ELSE otherwise
Scan(table, alias, rows) == [set |-> {alias}, size |-> IF {alias} \in DOMAIN table THEN table[{alias}] ELSE rows]
Join(table, a, b) == LET p == Mul(a.size, b.size) IN [set |-> a.set \cup b.set, size |-> Lookup(table, a.set \cup b.set, p, p)]
RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN One ELSE Mul(Head(s).size, Product(Tail(s)))
RECURSIVE Sets(_)
Sets(s) == IF s = <<>> THEN {} ELSE Head(s).set \cup Sets(Tail(s))
JoinAll(table, ms) == LET p == Product(ms) IN [set |-> Sets(ms), size |-> Lookup(table, Sets(ms), p, p)]
Limit(m, n, off) == [m EXCEPT !.size = Min(Sub(m.size, off), n)]
Group(table, m, id) == [m EXCEPT !.size = IF id = "" THEN One ELSE Lookup(table, {id}, m.size, m.size)]

(*----- the injection file -----*)
\* entries <<names, size, well-formed>>: malformed ones and repetitions are ignored and reported
RECURSIVE Table(_)
Table(es) == IF es = <<>> THEN <<>>
             ELSE LET t == Table(SubSeq(es, 1, Len(es) - 1))  e == es[Len(es)]  k == {e[1][i] : i \in 1..Len(e[1])} IN
                  IF e[3] = 0 \/ k \in DOMAIN t THEN t ELSE [x \in DOMAIN t \cup {k} |-> IF x = k THEN e[2] ELSE t[x]]
Faulty(es) == \E i \in 1..Len(es) : es[i][3] = 0 \/ \E j \in 1..(i - 1) : es[j][3] = 1 /\ {es[j][1][x] : x \in 1..Len(es[j][1])} = {es[i][1][x] : x \in 1..Len(es[i][1])}
=============================================================================
