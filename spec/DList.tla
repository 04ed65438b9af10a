------------------------------- MODULE DList -------------------------------
(* Sequences with the operations of a doubly linked list.  Positions count the elements before them. *)
EXTENDS Integers, Sequences
InsertAt(s, p, t) == SubSeq(s, 1, p) \o t \o SubSeq(s, p + 1, Len(s))
RemoveAt(s, p) == SubSeq(s, 1, p) \o SubSeq(s, p + 2, Len(s))
Reversed(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
At(s, p) == IF p >= Len(s) THEN 0 ELSE s[p + 1]      \* 0: the end
Copies(n, x) == [i \in 1..n |-> x]
=============================================================================
