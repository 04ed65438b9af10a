------------------------------- MODULE SqlExec -------------------------------
(* How an interpreter with pipelines of blocks executes  SELECT * FROM a, b WHERE a.1 = b.1 LIMIT lim OFFSET off:  a hash
   table of a without NULL keys, b pushed through it in blocks of at most B rows, the result gathered in blocks again, and
   a limit counting rows across blocks that ends the execution as soon as it is reached.  Grouping (g = TRUE) instead counts
   the join partners of each key and emits the groups in blocks at the end.
   Whatever the contents, the final output has to be an answer of Sql. *)
EXTENDS Sql
CONSTANTS B, N, Vals
VARIABLES db, lim, off, g, pc, i, ht, blk, cnt, groups, out
vars == <<db, lim, off, g, pc, i, ht, blk, cnt, groups, out>>

Rel == UNION {[1..n -> {<<v>> : v \in Vals}] : n \in 0..N}
Init == /\ db \in [{"a", "b"} -> Rel] /\ lim \in -1..2 /\ off \in 0..2 /\ g \in BOOLEAN
        /\ pc = "build" /\ i = 1 /\ ht = <<>> /\ blk = <<>> /\ cnt = 0 /\ groups = {} /\ out = <<>>

Eq == <<"=", <<"c", 1>>, <<"c", 2>>>>
Query == [from |-> <<<<"t", "a">>, <<"t", "b">>>>, where |-> Eq, having |-> <<"none">>, order |-> <<>>, lim |-> lim, off |-> off,
          agg |-> g, group |-> IF g THEN <<<<"c", 1>>>> ELSE <<>>,
          sel |-> IF g THEN <<<<"k", 1>>, <<"a", "COUNT*", <<"none">>>>>> ELSE <<<<"c", 1>>, <<"c", 2>>>>]

Build == /\ pc = "build"
         /\ IF i > Len(db["a"]) THEN pc' = "probe" /\ i' = 1 /\ UNCHANGED ht
            ELSE LET r == db["a"][i] IN i' = i + 1 /\ ht' = (IF IsNull(r[1]) THEN ht ELSE Append(ht, r)) /\ UNCHANGED pc
         /\ UNCHANGED <<db, lim, off, g, blk, cnt, groups, out>>

\* what of a block passes the limit, given that cnt rows came before
Passes(b) == LET lo == IF off > cnt THEN off - cnt ELSE 0
                 hi == IF lim < 0 THEN Len(b) ELSE IF off + lim - cnt < Len(b) THEN off + lim - cnt ELSE Len(b)
             IN  SubSeq(b, lo + 1, hi)
Reached == lim >= 0 /\ cnt >= off + lim
Push(b) == out' = out \o Passes(b) /\ cnt' = cnt + Len(b)

\* a full block goes on; otherwise the next row of b finds its partners
Probe == /\ pc = "probe"
         /\ IF Reached THEN pc' = "done" /\ UNCHANGED <<i, blk, cnt, groups, out>>
            ELSE IF ~g /\ Len(blk) >= B THEN Push(SubSeq(blk, 1, B)) /\ blk' = SubSeq(blk, B + 1, Len(blk)) /\ UNCHANGED <<pc, i, groups>>
            ELSE IF i > Len(db["b"]) THEN
                 IF g THEN pc' = "emit" /\ UNCHANGED <<i, blk, cnt, groups, out>>
                 ELSE Push(blk) /\ blk' = <<>> /\ pc' = "done" /\ UNCHANGED <<i, groups>>
            ELSE LET r == db["b"][i]
                     m == SelectSeq(ht, LAMBDA x : ~IsNull(r[1]) /\ x[1] = r[1])
                     old == {k \in groups : k[1] = r[1]}
                     n == IF old = {} THEN 0 ELSE (CHOOSE k \in old : TRUE)[2][2]
                 IN  /\ i' = i + 1 /\ UNCHANGED <<pc, cnt, out>>
                     /\ IF g THEN /\ groups' = IF m = <<>> THEN groups ELSE (groups \ old) \cup {<<r[1], INT(n + Len(m))>>}
                                  /\ UNCHANGED blk
                        ELSE blk' = blk \o [j \in 1..Len(m) |-> <<m[j][1], r[1]>>] /\ UNCHANGED groups
         /\ UNCHANGED <<db, lim, off, g, ht>>

\* groups leave in any order
Emit == /\ pc = "emit"
        /\ IF groups = {} \/ Reached THEN pc' = "done" /\ UNCHANGED <<groups, cnt, out>>
           ELSE \E S \in SUBSET groups : /\ Cardinality(S) = (IF Cardinality(groups) < B THEN Cardinality(groups) ELSE B)
                                         /\ Push(SetToSeq(S)) /\ groups' = groups \ S /\ UNCHANGED pc
        /\ UNCHANGED <<db, lim, off, g, i, ht, blk>>
Done == pc = "done" /\ UNCHANGED vars
Next == Build \/ Probe \/ Emit \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Build \/ Probe \/ Emit)

Correct == pc = "done" => IsAnswer(db, Query, out)
\* nothing leaves that is not part of an answer
Sound == lim < 0 /\ ~g => IsSubBag(out, FromRows(db, Query.from, 1))
Ends == <>(pc = "done")
==============================================================================
