------------------------------ MODULE PoolApi ------------------------------
(* Interning as its users see it: every thread owns slots that hold references. *)
(* Operations are calls and returns, so that any interleaving can be recorded.  *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS Thread, Slot, Value, Object

None == <<>>
VARIABLES live,    \* [Slot -> None or <<value, object>>]: references certainly held
          op,      \* [Thread -> None or the operation in progress]
          bnd,     \* [Thread -> <<lo, hi>>]: bounds of the count while a count is being read
          seen     \* all values interned so far
vars == <<live, op, bnd, seen>>

Init == /\ live = [s \in Slot |-> None] /\ op = [t \in Thread |-> None]
        /\ bnd = [t \in Thread |-> <<0, 0>>] /\ seen = {}

Certain(L, v) == Cardinality({s \in Slot : L[s] # None /\ L[s][1] = v})
(* operations in progress hold a few temporary references to the values they touch *)
Touches(O, t, v) == O[t] # None /\ v \in O[t].vals
Possible(L, O, v) == Certain(L, v) + 8 * Cardinality({t \in Thread : Touches(O, t, v)})

(* whoever is reading a count sees the count of some moment within its call *)
Bounds(L, O) == bnd' = [t \in Thread |->
    IF O[t] = None \/ O[t].kind # "N" THEN <<0, 0>>
    ELSE LET v == O[t].of  lo == Certain(L, v)  hi == Possible(L, O, v)
         IN IF op[t] = None THEN <<lo, hi>>
            ELSE <<IF lo < bnd[t][1] THEN lo ELSE bnd[t][1], IF hi > bnd[t][2] THEN hi ELSE bnd[t][2]>>]

ValsOf(s) == IF live[s] = None THEN {} ELSE {live[s][1]}
Begin(t, o, L) == /\ op[t] = None
                  /\ op' = [op EXCEPT ![t] = o]
                  /\ live' = L
                  /\ Bounds(live', op')

CallIntern(t, s, v) ==
    /\ live[s] = None
    /\ Begin(t, [kind |-> "I", to |-> s, want |-> v, obj |-> 0, vals |-> {v}], live)
    /\ seen' = seen \cup {v}
CallCopy(t, s, d) ==      \* d is overwritten: its old reference goes away sometime during the call
    /\ live[s] # None
    /\ Begin(t, [kind |-> "C", to |-> d, want |-> live[s][1], obj |-> live[s][2], vals |-> ValsOf(s) \cup ValsOf(d)],
             [live EXCEPT ![d] = None])
    /\ UNCHANGED seen
CallMove(t, s, d) ==
    /\ live[s] # None
    /\ Begin(t, [kind |-> "M", to |-> d, want |-> live[s][1], obj |-> live[s][2], vals |-> ValsOf(s) \cup ValsOf(d)],
             [live EXCEPT ![d] = None, ![s] = None])
    /\ UNCHANGED seen
CallDrop(t, s) == /\ live[s] # None
                  /\ Begin(t, [kind |-> "D", vals |-> ValsOf(s)], [live EXCEPT ![s] = None])
                  /\ UNCHANGED seen
CallCount(t, s) == /\ live[s] # None
                   /\ Begin(t, [kind |-> "N", of |-> live[s][1], vals |-> {}], live)
                   /\ UNCHANGED seen
CallEqual(t, a, b) == /\ live[a] # None /\ live[b] # None
                      /\ Begin(t, [kind |-> "E", a |-> a, b |-> b, vals |-> ValsOf(a) \cup ValsOf(b)], live)
                      /\ UNCHANGED seen

(* The heart: equal values share one object, distinct values never do, and the object holds the value. *)
Canonical(v, o) == \A s \in Slot : live[s] # None => (live[s][1] = v <=> live[s][2] = o)
RetRef(t, o, val) ==
    /\ op[t] # None /\ op[t].kind \in {"I", "C", "M"}
    /\ op[t].want = val
    /\ Canonical(val, o)
    /\ op[t].kind # "I" => o = op[t].obj
    /\ live' = [live EXCEPT ![op[t].to] = <<val, o>>]
    /\ op' = [op EXCEPT ![t] = None]
    /\ Bounds(live', op')
    /\ UNCHANGED seen
RetDrop(t) == /\ op[t] # None /\ op[t].kind = "D"
              /\ op' = [op EXCEPT ![t] = None] /\ Bounds(live, op')
              /\ UNCHANGED <<live, seen>>
RetCount(t, n) == /\ op[t] # None /\ op[t].kind = "N"
                  /\ bnd[t][1] <= n /\ n <= bnd[t][2]
                  /\ op' = [op EXCEPT ![t] = None] /\ Bounds(live, op')
                  /\ UNCHANGED <<live, seen>>
RetEqual(t, r) == /\ op[t] # None /\ op[t].kind = "E"
                  /\ r = (live[op[t].a][1] = live[op[t].b][1])
                  /\ op' = [op EXCEPT ![t] = None] /\ Bounds(live, op')
                  /\ UNCHANGED <<live, seen>>
Swap(t, a, b) == /\ op[t] = None
                 /\ live' = [live EXCEPT ![a] = live[b], ![b] = live[a]]
                 /\ Bounds(live', op) /\ UNCHANGED <<op, seen>>
Read(t, s, o, val) == live[s] = <<val, o>> /\ UNCHANGED vars
Quiescent == \A t \in Thread : op[t] = None
Size(n) == /\ Quiescent
           /\ n >= Cardinality({live[s][1] : s \in {x \in Slot : live[x] # None}})
           /\ n <= Cardinality(seen)
           /\ UNCHANGED vars
End == Quiescent /\ (\A s \in Slot : live[s] = None) /\ UNCHANGED vars

SlotsOf(t) == {s \in Slot : s \div 2 = t}
Next == \E t \in Thread :
          \/ \E s \in SlotsOf(t), v \in Value : CallIntern(t, s, v)
          \/ \E s \in SlotsOf(t), d \in SlotsOf(t) : s # d /\ (CallCopy(t, s, d) \/ CallMove(t, s, d) \/ Swap(t, s, d) \/ CallEqual(t, s, d))
          \/ \E s \in SlotsOf(t) : CallDrop(t, s) \/ CallCount(t, s)
          \/ \E o \in Object, v \in Value : RetRef(t, o, v)
          \/ RetDrop(t) \/ (\E n \in 0..9 : RetCount(t, n)) \/ (\E r \in BOOLEAN : RetEqual(t, r))
Spec == Init /\ [][Next]_vars

OneObjectPerValue == \A a, b \in Slot : (live[a] # None /\ live[b] # None) => (live[a][1] = live[b][1] <=> live[a][2] = live[b][2])
=============================================================================
