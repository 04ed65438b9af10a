------------------------------ MODULE DListMC ------------------------------
(* The XOR-linked representation: a node stores the XOR of its neighbours' addresses; head and tail swap to reverse.  It represents
   the sequence under every history of insertions and erasures at any position (reached from either end) and reversals. *)
EXTENDS DList, FiniteSets, Bitwise
CONSTANT MAX
VARIABLES head, tail, link, seq       \* addresses are 1..MAX, 0 is null; seq: the sequence of addresses it should represent
vars == <<head, tail, link, seq>>
Init == head = 0 /\ tail = 0 /\ link = <<>> /\ seq = <<>>
Nodes == {seq[i] : i \in 1..Len(seq)}
\* an iterator is <<node, previous>>
RECURSIVE Forward(_, _, _)
Forward(n, p, k) == IF k = 0 THEN <<n, p>> ELSE Forward(link[n] ^^ p, n, k - 1)
RECURSIVE Backward(_, _, _)
Backward(n, p, k) == IF k = 0 THEN <<n, p>> ELSE Backward(p, link[p] ^^ n, k - 1)
Fix(f, n, x) == IF n = 0 THEN f ELSE [f EXCEPT ![n] = @ ^^ x]
Insert == \E a \in 1..MAX : a \notin Nodes /\ \E i \in 0..Len(seq) : \E fwd \in BOOLEAN :
    LET it == IF fwd THEN Forward(head, 0, i) ELSE Backward(0, tail, Len(seq) - i)
        n == it[1]  p == it[2]
        f == [x \in Nodes \cup {a} |-> IF x = a THEN p ^^ n ELSE link[x]] IN
    /\ link' = Fix(Fix(f, p, n ^^ a), n, p ^^ a)
    /\ head' = IF p = 0 THEN a ELSE head
    /\ tail' = IF n = 0 THEN a ELSE tail
    /\ seq' = InsertAt(seq, i, <<a>>)
Erase == seq # <<>> /\ \E i \in 0..Len(seq) - 1 :
    LET it == Forward(head, 0, i)
        n == it[1]  p == it[2]  nx == link[n] ^^ p
        f == [x \in Nodes \ {n} |-> link[x]] IN
    /\ link' = Fix(Fix(f, p, n ^^ nx), nx, n ^^ p)
    /\ head' = IF p = 0 THEN nx ELSE head
    /\ tail' = IF nx = 0 THEN p ELSE tail
    /\ seq' = RemoveAt(seq, i)
Reverse == head' = tail /\ tail' = head /\ link' = link /\ seq' = Reversed(seq)
Next == Insert \/ Erase \/ Reverse
Spec == Init /\ [][Next]_vars
Represents == /\ \A i \in 0..Len(seq) : LET it == Forward(head, 0, i) IN it[1] = At(seq, i) /\ it = Backward(0, tail, Len(seq) - i)
              /\ \A i \in 0..Len(seq) : Forward(tail, 0, i)[1] = At(Reversed(seq), i)
=============================================================================
