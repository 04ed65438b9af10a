-------------------------- MODULE ListAllocTrace --------------------------
(* Events end with the state afterwards: regions, free chunks <<allocator, region, offset, size, marked>>, allocations <<id, region, offset,
   content intact>>, and whether only mapped memory was ever unmapped. *)
EXTENDS ListAlloc, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, own, used, regs
vars == <<tid, l, own, used, regs>>
Ev == Traces[tid].ev
Range(s) == {s[i] : i \in 1..Len(s)}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ own = <<>> /\ used = {} /\ regs = {}
\* the state an event reports, from its position p on
RR(e, p) == Range(e[p])
FF(e, p) == Range(e[p + 1])
UU(e, p) == Range(e[p + 2])
\* allocations before the event are still where they were, with their content
Kept(U, e, p) == /\ {x[1] : x \in UU(e, p)} = {u.id : u \in U}
                 /\ \A u \in U : \E x \in UU(e, p) : x[1] = u.id /\ x[2] = u.region /\ x[3] = u.off /\ x[4] = TRUE
After(U, O, e, p) ==
    /\ Kept(U, e, p) /\ e[p + 3] = TRUE
    /\ Cardinality(FF(e, p)) = Len(e[p + 1])
    /\ DOMAIN O = {r[1] : r \in RR(e, p)}
    /\ \A f \in FF(e, p) : f[2] \in DOMAIN O /\ O[f[2]] = f[1]
    /\ \A u \in U : u.region \in DOMAIN O /\ O[u.region] = u.alloc
    /\ Good(RR(e, p), FF(e, p), U)
    /\ used' = U /\ own' = O /\ regs' = RR(e, p)
New(e, p) == {r[1] : r \in RR(e, p)} \ DOMAIN own
Grow(k, e, p) == [r \in DOMAIN own \cup New(e, p) |-> IF r \in DOMAIN own THEN own[r] ELSE k]
\* only allocator k may get memory; it may not lose any
Step ==
    LET e == Ev[l]  k == e[2] IN
    CASE e[1] = "new" -> After(used, Grow(k, e, 4), e, 4) /\ (e[3] = 0 => New(e, 4) = {}) /\ (e[3] > 0 => \E f \in FF(e, 4) : f[1] = k /\ f[4] >= e[3])
      [] e[1] = "alloc" ->
            IF e[4] = 0 THEN e[6] = FALSE /\ After(used, own, e, 7)
            ELSE /\ e[6] = TRUE
                 /\ \E x \in {x \in UU(e, 7) : x[1] = e[3]} : LET
                        u == [id |-> e[3], alloc |-> k, size |-> e[4], align |-> e[5], region |-> x[2], off |-> x[3]] IN
                    After(used \cup {u}, Grow(k, e, 7), e, 7)
                 \* memory is mapped only if no free chunk could serve
                 /\ (New(e, 7) # {} => l > 1 /\ LET q == Ev[l - 1] IN
                      ~\E f \in Range(q[Len(q) - 2]) : Serves(regs, f, k, e[4], e[5]))
      [] e[1] = "free" -> LET u == CHOOSE u \in used : u.id = e[3] IN
                          /\ After(used \ {u}, own, e, 4)
                          /\ \E f \in FF(e, 4) : f[1] = k /\ f[2] = u.region /\ f[3] <= u.off /\ u.off + u.size <= f[3] + f[4]
      [] e[1] = "swap" -> After({[u EXCEPT !.alloc = 3 - u.alloc] : u \in used}, [r \in DOMAIN own |-> 3 - own[r]], e, 2)
      [] e[1] = "freeall" -> After({}, own, e, 2)
      \* nothing of allocator k was in use: all its memory is gone
      [] e[1] = "destroy" -> After(used, [r \in {r \in DOMAIN own : own[r] # k} |-> own[r]], e, 3)
      [] e[1] = "move" -> After({[u EXCEPT !.alloc = k] : u \in used}, [r \in {r \in DOMAIN own : own[r] # k} |-> k], e, 4)
      [] OTHER -> FALSE
Next == l <= Len(Ev) /\ Step /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
NoReject == l <= Len(Ev) => ENABLED Next
=============================================================================
