------------------------------ MODULE Layout ------------------------------
(* Data layouts: trees of nodes <<"n", tuples, <<<<offset, stride, child>>, ...>>>> and leaves <<"l", index, size, ...>>; all in bits.
   The bits of leaf i of row r start at Position(tree, r, i). *)
EXTENDS Integers, Sequences, FiniteSets
Pow2(n) == CHOOSE p \in {2^k : k \in 0..20} : p >= n /\ (p = 1 \/ p \div 2 < n)
Max2(a, b) == IF a > b THEN a ELSE b
IsLeaf(n) == n[1] = "l"

RECURSIVE Has(_, _)
Has(n, i) == IF IsLeaf(n) THEN n[2] = i ELSE \E k \in 1..Len(n[3]) : Has(n[3][k][3], i)
RECURSIVE Position(_, _, _)
Position(n, r, i) ==            \* relative to the node
    LET c == n[3][CHOOSE k \in 1..Len(n[3]) : Has(n[3][k][3], i)] IN
    IF IsLeaf(c[3]) THEN c[1] + r * c[2]
    ELSE c[1] + (r \div c[3][2]) * c[2] + Position(c[3], r % c[3][2], i)

(* What iteration reports: per node with leaves, its leaves, the nodes above (outermost first, without the root), its offset. *)
RECURSIVE Groups(_, _, _)
Groups(n, levels, base) ==
    LET K == 1..Len(n[3])
        leaves == {<<n[3][k][3][2], n[3][k][1], n[3][k][2]>> : k \in {k \in K : IsLeaf(n[3][k][3])}} IN
    (IF leaves = {} THEN {} ELSE {<<leaves, levels, base>>})
    \cup UNION {Groups(n[3][k][3], Append(levels, <<n[3][k][2], n[3][k][3][2]>>), base + n[3][k][1]) : k \in {k \in K : ~IsLeaf(n[3][k][3])}}
RECURSIVE CountLeaves(_)
CountLeaves(n) == IF IsLeaf(n) THEN 1 ELSE
    LET s[k \in 0..Len(n[3])] == IF k = 0 THEN 0 ELSE s[k - 1] + CountLeaves(n[3][k][3]) IN s[Len(n[3])]

(* Disjointness.  Item i of a block of n rows: at offs[i] + r * strides[i], sizes[i] bits. *)
Apart(o, p, s, t, n, m, x) ==     \* items at o + r*s of m bits and p + r*t of x bits, r < n
    \/ o + (n - 1) * s + m <= p
    \/ p + (n - 1) * t + x <= o
    \/ s = t /\ n > 1 /\ s > 0 /\ LET d == (p - o) % s IN d >= m /\ d + x <= s
    \/ n <= 64 /\ \A a, b \in 0..(n - 1) : o + a * s + m <= p + b * t \/ p + b * t + x <= o + a * s
=============================================================================
