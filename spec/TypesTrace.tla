---------------------------- MODULE TypesTrace ----------------------------
(* ["db", {table: {column: type}}]: the database.  ["type"|"cond", tree, errors, type, category]: a statement, whether errors were
   reported, and the type of the first item of its SELECT clause, or of its WHERE condition.  ["sema", errors]: any statement,
   analysed. *)
EXTENDS Types, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
Ev == Traces[tid].ev
DB == Traces[tid].db
Init == tid \in 1..Len(Traces) /\ l = 1
Holds == LET e == Ev[l] IN
    \/ e[1] = "sema"
    \/ /\ e[1] \in {"type", "cond"}
       /\ LET s == e[2][1]  c == Ctx(s, DB)
              t == IF e[1] = "type" THEN Items(s, c)[1] ELSE Typing(s[4][1], In("where", c)) IN
          /\ (e[3] = 0) = Accepts(s, DB)
          /\ e[3] = 0 => <<e[4], e[5]>> = t
Next == l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l>>
NoReject == l <= Len(Ev) => Holds
=============================================================================
