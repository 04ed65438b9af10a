--------------------------- MODULE LayoutTrace ---------------------------
(* <<factory, its parameter, reordering?, rows asked for, rows of the layout, types as <<size, alignment>>, tree, groups, stride>> *)
EXTENDS Layout, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
Ev == Traces[tid].ev
Range(s) == {s[i] : i \in 1..Len(s)}
Init == tid \in 1..Len(Traces) /\ l = 1
Next == l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid

Iterated(e) == LET g == e[8] IN
    /\ {<<Range(g[k][1]), g[k][2], g[k][3]>> : k \in 1..Len(g)} = Groups(e[7], <<>>, 0)
    /\ LET s[k \in 0..Len(g)] == IF k = 0 THEN 0 ELSE s[k - 1] + Len(g[k][1]) IN s[Len(g)] = CountLeaves(e[7])

(* The factories: one block (of blocks) of some rows, each attribute and the NULL bits somewhere in it. *)
Made(e) ==
    LET root == e[7]  blk == root[3][1][3]  B == root[3][1][2]  n == blk[2]
        T == e[6]  k == Len(T)
        size == [i \in 1..(k + 1) |-> IF i <= k THEN T[i][1] ELSE k]
        off == [i \in 1..(k + 1) |-> Position(blk, 0, i - 1)]
        stride == [i \in 1..(k + 1) |-> IF n = 1 THEN 0 ELSE Position(blk, 1, i - 1) - off[i]]
        maxalign == CHOOSE a \in {8} \cup {T[i][2] : i \in 1..k} : a >= 8 /\ \A i \in 1..k : T[i][2] <= a
        natural == e[3] = 1 /\ (e[1] # "bytes" \/ (e[2] * 8) % maxalign = 0) IN
    /\ Len(root[3]) = 1 /\ ~IsLeaf(blk) /\ root[3][1][1] = 0 /\ n >= 1
    /\ CountLeaves(root) = k + 1 /\ \A i \in 1..(k + 1) : Has(blk, i - 1)
    /\ \A c \in 1..Len(blk[3]) : LET leaf == blk[3][c][3] IN IsLeaf(leaf) => leaf[5] = 1 /\ leaf[3] = size[leaf[2] + 1]
    /\ (e[1] = "row" => n = 1) /\ (e[1] = "tuples" => n <= e[2]) /\ (e[1] = "bytes" => B % (8 * e[2]) = 0)
    /\ B % 8 = 0 /\ (natural => B % maxalign = 0)
    /\ \A i \in 1..(k + 1) : /\ off[i] >= 0 /\ off[i] + (n - 1) * stride[i] + size[i] <= B
                             /\ n > 1 => stride[i] >= size[i]
                             /\ \A r \in {0, 1, 2, n - 1} : r < n /\ r >= 0 => Position(blk, r, i - 1) = off[i] + r * stride[i]
    /\ \A i \in 1..k : /\ size[i] % 8 = 0 => off[i] % 8 = 0 /\ stride[i] % 8 = 0
                       /\ natural => off[i] % T[i][2] = 0 /\ stride[i] % T[i][2] = 0
    /\ \A i, j \in 1..(k + 1) : i < j => Apart(off[i], off[j], stride[i], stride[j], n, size[i], size[j])

Holds == LET e == Ev[l] IN
    /\ e[1] \in {"row", "tuples", "bytes", "hand"}
    /\ e[7][1] = "n" /\ e[7][2] = e[5] /\ e[9] = e[7][3][1][2]
    /\ e[1] # "hand" => e[5] = e[4]
    /\ Iterated(e)
    /\ e[1] # "hand" => Made(e)
Spec == Init /\ [][Next]_<<tid, l>>
NoReject == l <= Len(Ev) => Holds
=============================================================================
