----------------------------- MODULE ListAlloc -----------------------------
(* Allocators that map regions of memory, cut them into chunks, hand chunks out and take them back.
   A region is <<number, size, alignment of its start>>; a free chunk <<allocator, region, offset, size, marked>>, marked iff it starts
   its region (then the region can be unmapped with it); an allocation [id, alloc, size, align, region, off]. *)
EXTENDS Integers, Sequences, FiniteSets
HEADER == 8          \* bytes a chunk needs besides its content
Overlap(a, n, b, m) == a < b + m /\ b < a + n
Region(R, r) == CHOOSE x \in R : x[1] = r
Ends(F, U, r) == {f[3] + f[4] : f \in {g \in F : g[2] = r}} \cup {u.off + u.size : u \in {v \in U : v.region = r}}
\* Every used and every free piece lies in a region and is disjoint from the others
Placed(R, F, U) ==
    /\ \A u \in U : \E r \in R : r[1] = u.region /\ u.off >= 0 /\ u.off + u.size + HEADER <= r[2]
    /\ \A f \in F : \E r \in R : r[1] = f[2] /\ f[3] >= 0 /\ f[4] > HEADER /\ f[3] + f[4] <= r[2]
    /\ \A u, v \in U : u.id # v.id /\ u.region = v.region => ~Overlap(u.off, u.size + HEADER, v.off, v.size + HEADER)
    /\ \A u \in U, f \in F : u.region = f[2] => ~Overlap(u.off, u.size + HEADER, f[3], f[4])
    /\ \A f, g \in F : f # g /\ f[2] = g[2] => ~Overlap(f[3], f[4], g[3], g[4])
Aligned(R, u) == u.align > 1 => u.off % u.align = 0 /\ Region(R, u.region)[3] % u.align = 0
\* the chunk that starts a region, and only that, carries the mark
Marks(F) == \A f \in F : f[5] = (IF f[3] = 0 THEN 1 ELSE 0)
\* free neighbours are merged
Coalesced(F) == \A f, g \in F : f[2] = g[2] => f[3] + f[4] # g[3]
\* no memory is lost: whatever is not free belongs to the allocation before it
NothingLost(R, F, U) == \A r \in R : \A e \in {0} \cup {f[3] + f[4] : f \in {g \in F : g[2] = r[1]}} :
                          e = r[2] \/ (\E f \in F : f[2] = r[1] /\ f[3] = e) \/ (\E u \in U : u.region = r[1] /\ u.off = e)
\* a free chunk of allocator k that could serve the request
Serves(R, f, k, n, a) == f[1] = k /\ f[4] >= n + HEADER /\ (a <= 1 \/ (f[3] % a = 0 /\ Region(R, f[2])[3] % a = 0))
Good(R, F, U) == Placed(R, F, U) /\ (\A u \in U : Aligned(R, u)) /\ Marks(F) /\ Coalesced(F) /\ NothingLost(R, F, U)
=============================================================================
