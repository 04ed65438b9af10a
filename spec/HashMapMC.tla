----------------------------- MODULE HashMapMC -----------------------------
(* Open addressing with triangular probing and per-bucket probe lengths (RefCountingHashMap): for every hash function and every history of
   insertions, lookups find exactly what was inserted, and there is always a free slot to find. *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS KEYS, MAXV
CAP0 == 2
VARIABLES cap, slot, len, n, hash, bag       \* slot, len: 0..cap-1 -> entry or <<>>, probe length
vars == <<cap, slot, len, n, hash, bag>>
\* hash values 0..7; the bucket is the hash modulo the capacity
Init == /\ cap = CAP0 /\ slot = [i \in 0..cap - 1 |-> <<>>] /\ len = [i \in 0..cap - 1 |-> 0] /\ n = 0 /\ bag = {}
        /\ hash \in [KEYS -> {0, 1, 3, 4}]
Tri(k) == (k * (k + 1)) \div 2
Probe(h, k, c) == (h + Tri(k)) % c
Water(c) == (c * 85) \div 100
FreeAt(S, h, c, from) == CHOOSE k \in from..2 * c : S[Probe(h, k, c)] = <<>> /\ \A j \in from..k - 1 : S[Probe(h, j, c)] # <<>>
\* insertion that skips the bucket's known probe sequence
Put(t, e) == LET h == hash[e[1]]  b == h % t.cap IN
             IF t.len[b] = 0 THEN [t EXCEPT !.slot[b] = e, !.len[b] = 1]
             ELSE LET k == FreeAt(t.slot, h, t.cap, t.len[b])  i == Probe(h, k, t.cap) IN
                  [t EXCEPT !.slot[i] = e, !.len = [@ EXCEPT ![i] = 1, ![b] = k + 1]]
RECURSIVE PutAll(_, _)
PutAll(t, S) == IF S = {} THEN t ELSE LET e == CHOOSE e \in S : TRUE IN PutAll(Put(t, e), S \ {e})
Empty(c) == [cap |-> c, slot |-> [i \in 0..c - 1 |-> <<>>], len |-> [i \in 0..c - 1 |-> 0]]
Now == [cap |-> cap, slot |-> slot, len |-> len]
Room == IF n >= Water(cap) THEN PutAll(Empty(2 * cap), bag) ELSE Now
Set(t) == cap' = t.cap /\ slot' = t.slot /\ len' = t.len
Key(e) == e[1]
Found(t, k) == LET h == hash[k]  b == h % t.cap IN
               \E j \in 0..t.len[b] - 1 : t.slot[Probe(h, j, t.cap)] # <<>> /\ Key(t.slot[Probe(h, j, t.cap)]) = k
InsertDup == \E k \in KEYS : /\ n < MAXV
                             /\ Set(Put(Room, <<k, n>>)) /\ n' = n + 1 /\ bag' = bag \cup {<<k, n>>} /\ UNCHANGED hash
InsertUnique == \E k \in KEYS : /\ n < MAXV /\ ~Found(Room, k)
                                /\ LET h == hash[k]  t == Room  j == FreeAt(t.slot, h, t.cap, 0)  i == Probe(h, j, t.cap) IN
                                   Set([t EXCEPT !.slot[i] = <<k, n>>, !.len = [@ EXCEPT ![i] = 1, ![h % t.cap] = j + 1]])
                                /\ n' = n + 1 /\ bag' = bag \cup {<<k, n>>} /\ UNCHANGED hash
Next == InsertDup \/ InsertUnique
Spec == Init /\ [][Next]_vars
Exact == \A k \in KEYS :
    LET b == hash[k] % cap
        seen == [j \in 0..len[b] - 1 |-> slot[Probe(hash[k], j, cap)]] IN
    /\ \A j \in DOMAIN seen : seen[j] # <<>>                                         \* no holes
    /\ Cardinality({j \in DOMAIN seen : seen[j][1] = k}) = Cardinality({e \in bag : e[1] = k})   \* each once
    /\ {seen[j] : j \in {j \in DOMAIN seen : seen[j][1] = k}} = {e \in bag : e[1] = k}
    /\ Found(Now, k) = (\E e \in bag : e[1] = k)
Occupied == {slot[i] : i \in {i \in 0..cap - 1 : slot[i] # <<>>}} = bag /\ n = Cardinality(bag) /\ n < cap
=============================================================================
