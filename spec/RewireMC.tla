------------------------------ MODULE RewireMC ------------------------------
(* Linear allocation with releases in any order: a stack of allocations, marked when released, popped when the top is released. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS SIZES, MAX
VARIABLES stack, offset, live        \* stack of <<offset, marked>>; live: set of <<offset, size>>
vars == <<stack, offset, live>>
Init == stack = <<>> /\ offset = 0 /\ live = {}
Alloc == \E n \in SIZES : /\ Len(stack) < MAX /\ offset + n <= 12
                          /\ stack' = Append(stack, <<offset, FALSE>>) /\ offset' = offset + n /\ live' = live \cup {<<offset, n>>}
RECURSIVE Popped(_)
Popped(s) == IF s # <<>> /\ s[Len(s)][2] THEN Popped(SubSeq(s, 1, Len(s) - 1)) ELSE s
Release == \E m \in live :
    LET i == CHOOSE i \in 1..Len(stack) : stack[i] = <<m[1], FALSE>>
        s == [stack EXCEPT ![i] = <<m[1], TRUE>>]
        r == IF i = Len(stack) THEN Popped(s) ELSE s IN
    /\ live' = live \ {m} /\ stack' = r
    /\ offset' = IF i = Len(stack) THEN s[Len(r) + 1][1] ELSE offset
Next == Alloc \/ Release
Spec == Init /\ [][Next]_vars
Disjoint == \A a, b \in live : a # b => a[1] + a[2] <= b[1] \/ b[1] + b[2] <= a[1]
Exact == LET E == {0} \cup {a[1] + a[2] : a \in live} IN offset \in E /\ \A x \in E : x <= offset
=============================================================================
