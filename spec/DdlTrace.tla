------------------------------ MODULE DdlTrace ------------------------------
(* <<"do", path, verdict, catalog after it, <<op>>>>, <<"prep", slot, verdict, catalog, <<op>>>>, <<"exec", slot, verdict, catalog>> *)
EXTENDS Ddl, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, cat, slots
Ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1 /\ cat = [use |-> "-", dbs |-> Empty] /\ slots = Empty

PrimaryKey(t) == Cardinality({i \in 1..Len(t.at) : t.at[i][5] = 1})
UniqueAttr(t, a) == LET x == AttrOf(t, a) IN x[4] = 1 \/ (x[5] = 1 /\ PrimaryKey(t) = 1)
Shown(db, t) == LET T == db.tab[t] IN
    <<t, [i \in 1..Len(T.at) |-> LET a == T.at[i] IN
        <<a[1], a[2], a[3], a[4], a[5], IF a[6] = "-" THEN "-" ELSE a[6] \o "." \o a[7],
          IF a[6] = "-" THEN 0 ELSE IF UniqueAttr(db.tab[a[6]], a[7]) THEN 1 ELSE 0>>], T.rows>>
Matches(c, d) ==
    /\ Len(d) = 2 /\ d[1] = c.use /\ Len(d[2]) = Cardinality(DOMAIN c.dbs) /\ {d[2][i][1] : i \in 1..Len(d[2])} = DOMAIN c.dbs
    /\ \A k \in 1..Len(d[2]) : LET e == d[2][k]  db == c.dbs[e[1]] IN
        /\ Len(e) = 4
        /\ RangeOf(e[2]) = {Shown(db, t) : t \in DOMAIN db.tab}
        /\ RangeOf(e[3]) = {<<i, db.idx[i].method, db.idx[i].n>> : i \in DOMAIN db.idx}
        /\ \A i \in DOMAIN db.idx : db.idx[i].valid =>
             \E x \in RangeOf(e[4]) : x[1] = db.idx[i].table /\ x[2] = db.idx[i].attr /\ x[3] = db.idx[i].method
        /\ \A x \in RangeOf(e[4]) : x[4] \in DOMAIN db.idx /\ LET i == db.idx[x[4]] IN
             i.valid /\ i.table = x[1] /\ i.attr = x[2] /\ i.method = x[3]
Step(e) ==
    CASE e[1] = "do" -> LET r == Effect(cat, e[5]) IN
            (e[3] = "ok") = r[1] /\ Matches(r[2], e[4]) /\ cat' = r[2] /\ slots' = slots
      [] e[1] = "prep" -> LET r == Effect(cat, e[5]) IN
            /\ (e[3] = "ok") = r[1] /\ Matches(cat, e[4]) /\ cat' = cat
            /\ slots' = IF r[1] THEN Put(slots, e[2], Resolve(cat, e[5])) ELSE slots
      [] e[1] = "exec" -> LET r == Later(cat, slots[e[2]]) IN
            (e[3] = "ok") = r[1] /\ Matches(r[2], e[4]) /\ cat' = r[2] /\ slots' = slots
      [] OTHER -> FALSE /\ UNCHANGED <<cat, slots>>
Next == l <= Len(Ev) /\ Step(Ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, cat, slots>>
NoReject == l <= Len(Ev) => ENABLED Next
=============================================================================
