---------------------------- MODULE ListAllocMC ----------------------------
(* First fit with splitting and coalescing over one growing set of regions, in units of HEADER bytes: all histories of up to MAXU live
   allocations.  chunks: the effective size of every live allocation, which the real allocator keeps behind the content. *)
EXTENDS ListAlloc
CONSTANTS SIZES, ALIGNS, REGION, MAXU, MAXR
VARIABLES R, F, U, eff
vars == <<R, F, U, eff>>
H == 16              \* a free chunk needs room for its list node
Ceil(n, m) == ((n + m - 1) \div m) * m
Max(a, b) == IF a > b THEN a ELSE b
Init == R = {} /\ F = {} /\ U = {} /\ eff = <<>>
Ids == {u.id : u \in U}
Fresh == CHOOSE i \in 1..MAXU : i \notin Ids
\* cut the chunk f for n bytes
Take(f, n, a, RR, FF) ==
    LET e == Max(Ceil(n + HEADER, 8), H)
        split == f[4] >= H + n + HEADER /\ 2 * n <= f[4] - HEADER
        u == [id |-> Fresh, alloc |-> 1, size |-> n, align |-> a, region |-> f[2], off |-> f[3]] IN
    /\ R' = RR
    /\ U' = U \cup {u}
    /\ F' = (FF \ {f}) \cup (IF split THEN {<<1, f[2], f[3] + e, f[4] - e, 0>>} ELSE {})
    /\ eff' = [i \in Ids \cup {Fresh} |-> IF i = Fresh THEN IF split THEN e ELSE f[4] ELSE eff[i]]
First(S) == CHOOSE f \in S : \A g \in S : f[2] < g[2] \/ (f[2] = g[2] /\ f[3] <= g[3])
Alloc == \E n \in SIZES, a \in ALIGNS :
    /\ Cardinality(U) < MAXU
    /\ LET S == {f \in F : Serves(R, f, 1, n, a)} IN
       IF S # {} THEN Take(First(S), n, a, R, F)
       ELSE /\ Cardinality(R) < MAXR
            /\ LET r == Cardinality(R) + 1
                   s == Max(REGION, Ceil(n + HEADER, 8)) IN
               Take(<<1, r, 0, s, 1>>, n, a, R \cup {<<r, s, 4096>>}, F)
Merge(f, S) == LET g == CHOOSE x \in S : x[2] = f[2] /\ x[3] = f[3] + f[4] IN <<1, f[2], f[3], f[4] + g[4], f[5]>>
\* merging a chunk with its successor, then its predecessor with it
Reclaim(f, S) ==
    LET A == {x \in S : x[2] = f[2] /\ x[3] = f[3] + f[4] /\ x[5] = 0}
        f1 == IF A = {} THEN f ELSE Merge(f, A)
        S1 == S \ A
        B == IF f1[5] = 1 THEN {} ELSE {x \in S1 : x[2] = f1[2] /\ x[3] + x[4] = f1[3]} IN
    IF B = {} THEN S1 \cup {f1} ELSE LET p == CHOOSE x \in B : TRUE IN (S1 \ B) \cup {<<1, p[2], p[3], p[4] + f1[4], p[5]>>}
Free == \E u \in U : /\ U' = U \ {u}
                     /\ F' = Reclaim(<<1, u.region, u.off, eff[u.id], IF u.off = 0 THEN 1 ELSE 0>>, F)
                     /\ eff' = [i \in Ids \ {u.id} |-> eff[i]]
                     /\ R' = R
Next == Alloc \/ Free
Spec == Init /\ [][Next]_vars
AlwaysGood == Good(R, F, U)
\* once all is free again every region is one chunk
Reusable == U = {} => Cardinality(F) = Cardinality(R) /\ \A f \in F : f[3] = 0 /\ f[4] = Region(R, f[2])[2]
=============================================================================
