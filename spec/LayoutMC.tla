----------------------------- MODULE LayoutMC -----------------------------
(* Sequential access to one leaf of a layout: a byte pointer and a bit, advanced per row and per finished node, starting anywhere,
   stays at the position the layout defines.  Also: the block layouts of the row and PAX schemes keep their items apart. *)
EXTENDS Layout, TLC
CONSTANTS MAXROW, SIZES
VARIABLES levels, off, st, row, byte, bit, cnt
vars == <<levels, off, st, row, byte, bit, cnt>>
\* levels: outermost first, <<stride, tuples>>; strides are whole bytes and large enough for what is inside
Shapes == {<<<<s, n>>>> : s \in {16, 24}, n \in {1, 2, 3, 8, 9}}
          \cup {<<<<s, n>>, <<t, m>>>> : s \in {64, 72}, n \in {4, 6}, t \in {8, 16, 24}, m \in {1, 2}}
          \cup {<<<<s, 12>>, <<t, 6>>, <<u, 3>>>> : s \in {80}, t \in {32, 40}, u \in {8, 16}}
RECURSIVE Tree(_, _, _)
Tree(ls, o, s) == IF ls = <<>> THEN <<o, s, <<"l", 0, s, 1, 1>>>>
                  ELSE <<0, ls[1][1], <<"n", ls[1][2], <<Tree(Tail(ls), o, s)>>>>>>
Root(ls, o, s) == <<"n", 0, <<Tree(ls, o, s)>>>>
Inner(ls) == ls[Len(ls)][2]
Start(r) == LET p == Position(Root(levels, off, st), r, 0) IN byte = p \div 8 /\ bit = p % 8
Init == /\ levels \in Shapes /\ off \in {0, 8} /\ st \in {0, 1, 8, 16}
        /\ (st = 0 <=> Inner(levels) = 1)
        /\ row \in 0..3 /\ Start(row)
        /\ cnt = [k \in 1..Len(levels) |-> row % levels[k][2]]
\* the pointer after a whole row: advance inside the node, then over what is left of every finished node
Wrap(b, x) == IF x = 8 THEN <<b + 1, 0>> ELSE <<b, x>>
RECURSIVE Jump(_, _, _, _)
Jump(k, p, prevN, prevS) ==
    IF k = 0 THEN p ELSE
    LET n == levels[k][2]  rem == levels[k][1] - (n \div prevN) * prevS
        q == IF cnt[k] + 1 # n \/ rem = 0 THEN p
             ELSE IF rem % 8 # 0 THEN <<p[1] + rem \div 8 + 1, 0>> ELSE <<p[1] + rem \div 8, p[2]>> IN
    Jump(k - 1, q, n, levels[k][1])
Advance == /\ row < MAXROW /\ row' = row + 1
           /\ LET a == IF st % 8 # 0 THEN Wrap(byte, bit + st) ELSE <<byte + st \div 8, bit>>
                  p == Jump(Len(levels), a, 1, st) IN byte' = p[1] /\ bit' = p[2]
           /\ cnt' = [k \in 1..Len(levels) |-> IF cnt[k] + 1 = levels[k][2] THEN 0 ELSE cnt[k] + 1]
           /\ UNCHANGED <<levels, off, st>>
Next == Advance
Spec == Init /\ [][Next]_vars
InPlace == LET p == Position(Root(levels, off, st), row, 0) IN byte = p \div 8 /\ bit = p % 8

\* PAX: columns in order of alignment, each starting at a whole byte
RECURSIVE Cols(_, _, _)
Cols(sz, n, at) == IF sz = <<>> THEN <<at>> ELSE <<at>> \o Cols(Tail(sz), n, ((at + n * Head(sz) + 7) \div 8) * 8)
Sorted(sz) == \A i \in 1..(Len(sz) - 1) : sz[i] >= sz[i + 1]
ASSUME \A sz \in UNION {[1..k -> SIZES] : k \in 1..3} : Sorted(sz) => \A n \in 1..9 :
    LET o == Cols(sz, n, 0)  k == Len(sz)  nb == Max2(8, Pow2(k))
        s(i) == IF i <= k THEN sz[i] ELSE nb IN
    /\ \A i, j \in 1..(k + 1) : i < j => Apart(o[i], o[j], s(i), s(j), n, s(i), s(j))
    /\ \A i \in 1..k : sz[i] > 1 => o[i] % sz[i] = 0
=============================================================================
