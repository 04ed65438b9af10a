---------------------------- MODULE RewireTrace ----------------------------
(* Memory files with linear allocation, mapped into address spaces.  Sizes and offsets are in bytes, everything else in pages.  Events end with
   the live memories <<id, allocator, size, offset, page aligned, what each page shows>>, the mapped pages of the address spaces
   <<space, page, value>>, per allocator the next offset and the size of the file. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
PG == 4096
VARIABLES tid, l, M, C, V, W     \* id -> <<allocator, offset, pages>>; <<allocator, file page>> -> value; <<space, page>> -> <<id, page>>; sizes
vars == <<tid, l, M, C, V, W>>
Ev == Traces[tid].ev
Range(s) == {s[i] : i \in 1..Len(s)}
Ceil(n) == ((n + PG - 1) \div PG) * PG
Init == tid \in 1..Len(Traces) /\ l = 1 /\ M = <<>> /\ C = <<>> /\ V = <<>> /\ W = <<>>
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
\* where the last live memory of allocator k ends
End(MM, k) == Max({0} \cup {MM[i][2] + MM[i][3] * PG : i \in {j \in DOMAIN MM : MM[j][1] = k}})
File(MM, i, q) == <<MM[i][1], MM[i][2] \div PG + q>>
Set(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
\* the state an event shows, from position p on, is (MM, CC, VV)
Shows(e, p, MM, CC, VV) ==
    /\ e[p + 2] = [k \in 1..2 |-> End(MM, k)]
    /\ e[p + 3] # <<>> =>
       /\ e[p + 3] = [k \in 1..2 |-> End(MM, k)]
       /\ Len(e[p]) = Cardinality(DOMAIN MM) /\ {x[1] : x \in Range(e[p])} = DOMAIN MM
       /\ \A x \in Range(e[p]) : LET m == MM[x[1]] IN
            /\ x[2] = m[1] /\ x[3] = m[3] * PG /\ x[4] = m[2] /\ x[5] = TRUE
            /\ x[6] = [q \in 1..m[3] |-> CC[File(MM, x[1], q - 1)]]
       /\ {<<x[1], x[2]>> : x \in Range(e[p + 1])} = DOMAIN VV
       /\ \A x \in Range(e[p + 1]) : LET v == VV[<<x[1], x[2]>>] IN x[3] = CC[File(MM, v[1], v[2])]
    /\ M' = MM /\ C' = CC /\ V' = VV
Disjoint(MM) == \A i, j \in DOMAIN MM : i # j /\ MM[i][1] = MM[j][1] => MM[i][2] + MM[i][3] * PG <= MM[j][2] \/ MM[j][2] + MM[j][3] * PG <= MM[i][2]
Step == LET e == Ev[l] IN
    CASE e[1] = "spaces" -> /\ \A x \in Range(e[2]) : x[2] = Ceil(x[1]) /\ (x[1] > 0 => x[3] = TRUE)
                            /\ W' = e[2] /\ UNCHANGED <<M, C, V>>
      [] e[1] = "alloc" ->
            IF e[4] = 0 THEN e[2] = 0 /\ e[6] = TRUE /\ Shows(e, 7, M, C, V) /\ W' = W
            ELSE \E x \in {x \in Range(e[7]) : x[1] = e[2]} :
                 LET n == Ceil(e[4]) \div PG
                     MM == Set(M, e[2], <<e[3], x[4], n>>)
                     CC == [f \in DOMAIN C \cup {<<e[3], x[4] \div PG + q>> : q \in 0..n - 1} |->
                              IF f[1] = e[3] /\ f[2] >= x[4] \div PG /\ f[2] < x[4] \div PG + n THEN e[5][f[2] - x[4] \div PG + 1] ELSE C[f]] IN
                 x[4] % PG = 0 /\ Len(e[5]) = n /\ Disjoint(MM) /\ Shows(e, 7, MM, CC, V) /\ W' = W
      [] e[1] = "map" -> LET VV == [z \in DOMAIN V \cup {<<e[4], e[5] + q>> : q \in 0..e[6] - 1} |->
                                      IF z[1] = e[4] /\ z[2] >= e[5] /\ z[2] < e[5] + e[6] THEN <<e[2], e[3] + z[2] - e[5]>> ELSE V[z]] IN
                         Shows(e, 7, M, C, VV) /\ W' = W
      [] e[1] = "write" -> Shows(e, 5, M, Set(C, File(M, e[2], e[3]), e[4]), V) /\ W' = W
      [] e[1] = "vwrite" -> LET v == V[<<e[2], e[3]>>] IN Shows(e, 5, M, Set(C, File(M, v[1], v[2]), e[4]), V) /\ W' = W
      [] e[1] = "release" -> LET MM == [i \in DOMAIN M \ {e[2]} |-> M[i]]
                                 VV == [z \in {z \in DOMAIN V : V[z][1] # e[2]} |-> V[z]] IN
                             Shows(e, 3, MM, C, VV) /\ W' = W
      [] e[1] = "swap" -> Shows(e, 2, M, C, V) /\ W' = W
      [] e[1] = "gone" -> e[2] = TRUE /\ UNCHANGED <<M, C, V, W>>
      [] OTHER -> FALSE
Next == l <= Len(Ev) /\ Step /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
NoReject == l <= Len(Ev) => ENABLED Next
=============================================================================
