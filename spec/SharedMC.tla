------------------------------ MODULE SharedMC ------------------------------
(* Shared ownership by control blocks with a replaceable deleter: converting to exclusive ownership replaces the deleter by one that does
   nothing and lets the block go.  Every object is destroyed exactly once, when its last owner goes. *)
EXTENDS Integers, FiniteSets
CONSTANTS OBJS, SLOTS, UNIQUES
VARIABLES slot, uniq, block, dead, made        \* slot -> object, unique -> object, object -> <<count, deleter deletes?>>, times destroyed
vars == <<slot, uniq, block, dead, made>>
Init == slot = [s \in SLOTS |-> 0] /\ uniq = [u \in UNIQUES |-> 0] /\ block = [o \in OBJS |-> <<0, FALSE>>] /\ dead = [o \in OBJS |-> 0] /\ made = {}
\* releasing slot s: the last one runs the deleter
Release(s, B, D) == LET o == slot[s] IN
    IF o = 0 THEN <<B, D>>
    ELSE <<[B EXCEPT ![o] = <<@[1] - 1, @[2]>>], IF B[o][1] = 1 /\ B[o][2] THEN [D EXCEPT ![o] = @ + 1] ELSE D>>
Make == \E s \in SLOTS, o \in OBJS \ made : LET r == Release(s, block, dead) IN
    slot' = [slot EXCEPT ![s] = o] /\ block' = [r[1] EXCEPT ![o] = <<1, TRUE>>] /\ dead' = r[2] /\ made' = made \cup {o} /\ UNCHANGED uniq
Copy == \E s, t \in SLOTS : slot[t] # 0 /\ LET B == [block EXCEPT ![slot[t]] = <<@[1] + 1, @[2]>>]  r == Release(s, B, dead) IN
    slot' = [slot EXCEPT ![s] = slot[t]] /\ block' = r[1] /\ dead' = r[2] /\ UNCHANGED <<uniq, made>>
Reset == \E s \in SLOTS : LET r == Release(s, block, dead) IN
    slot' = [slot EXCEPT ![s] = 0] /\ block' = r[1] /\ dead' = r[2] /\ UNCHANGED <<uniq, made>>
Unique == \E s \in SLOTS, u \in UNIQUES : slot[s] # 0 /\ block[slot[s]][1] = 1 /\
    LET o == slot[s]  B == [block EXCEPT ![o] = <<@[1], FALSE>>]  r == Release(s, B, dead) IN
    /\ slot' = [slot EXCEPT ![s] = 0] /\ block' = r[1]
    /\ dead' = IF uniq[u] # 0 THEN [r[2] EXCEPT ![uniq[u]] = @ + 1] ELSE r[2]
    /\ uniq' = [uniq EXCEPT ![u] = o] /\ UNCHANGED made
Share == \E s \in SLOTS, u \in UNIQUES : uniq[u] # 0 /\ LET r == Release(s, block, dead) IN
    slot' = [slot EXCEPT ![s] = uniq[u]] /\ block' = [r[1] EXCEPT ![uniq[u]] = <<1, TRUE>>] /\ dead' = r[2] /\ uniq' = [uniq EXCEPT ![u] = 0] /\ UNCHANGED made
Next == Make \/ Copy \/ Reset \/ Unique \/ Share
Spec == Init /\ [][Next]_vars
Owned(o) == (\E s \in SLOTS : slot[s] = o) \/ (\E u \in UNIQUES : uniq[u] = o)
ExactlyOnce == \A o \in made : dead[o] = IF Owned(o) THEN 0 ELSE 1
Counts == \A o \in made : block[o][1] = Cardinality({s \in SLOTS : slot[s] = o})
OneUnique == \A o \in made : Cardinality({u \in UNIQUES : uniq[u] = o}) + (IF block[o][1] > 0 THEN 1 ELSE 0) <= 1
=============================================================================
