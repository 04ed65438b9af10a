-------------------------------- MODULE Ddl --------------------------------
(* The catalog: databases of tables and indexes.  A catalog is [use, dbs]; a database [tab, idx];
   a table [at: sequence of attributes, rows, has: how many rows have a value, per attribute];
   an attribute <<name, type, not null, unique, in the primary key, referenced table, referenced attribute>> ("-" if none);
   an index [table, attr, method, valid, n: number of its entries].
   Effect(c, op) is <<TRUE, the catalog after it>>, or <<FALSE, c>> if the operation has to be refused. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Empty == <<>>       \* the function without arguments
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Cut(f, S) == [x \in DOMAIN f \ S |-> f[x]]
RangeOf(s) == {s[i] : i \in 1..Len(s)}

Strings == {"c5", "v6"}
KeyClass(t) == CASE t \in {"i1"} -> "1" [] t \in {"i2", "n4"} -> "2" [] t \in {"i4", "n9", "date"} -> "4" [] t \in {"i8", "n18", "dt"} -> "8"
                 [] t \in Strings -> "s" [] OTHER -> t                                       \* b, f, d
Types == {"i1", "i2", "i4", "i8", "n4", "n9", "n18", "c5", "v6", "f", "d", "b", "date", "dt"}
Method(m) == IF m = "default" THEN "array" ELSE m
NoDB(c) == c.use = "-"
DB(c) == c.dbs[c.use]
With(c, db) == [c EXCEPT !.dbs = Put(c.dbs, c.use, db)]
Attrs(t) == {t.at[i][1] : i \in 1..Len(t.at)}
AttrOf(t, a) == t.at[CHOOSE i \in 1..Len(t.at) : t.at[i][1] = a]
IndexOf(t, a) == CHOOSE i \in 1..Len(t.at) : t.at[i][1] = a
Ok(c) == <<TRUE, c>>
No(c) == <<FALSE, c>>

(*----- databases -----*)
CreateDb(c, d) == IF d \in DOMAIN c.dbs THEN No(c) ELSE Ok([c EXCEPT !.dbs = Put(c.dbs, d, [tab |-> Empty, idx |-> Empty])])
DropDb(c, d, ifexists) ==
    IF c.use = d THEN No(c)
    ELSE IF d \in DOMAIN c.dbs THEN Ok([c EXCEPT !.dbs = Cut(c.dbs, {d})])
    ELSE IF ifexists THEN Ok(c) ELSE No(c)
Use(c, d) == IF d \in DOMAIN c.dbs THEN Ok([c EXCEPT !.use = d]) ELSE No(c)

(*----- tables -----*)
\* a declared attribute: <<name, type, not null, unique, primary key, check (0 none, 1 Boolean, 2 not), table, attribute>>
Reference(c, a) == \/ a[7] = "-"
                   \/ /\ a[7] \in DOMAIN DB(c).tab /\ a[8] \in Attrs(DB(c).tab[a[7]])
                      /\ AttrOf(DB(c).tab[a[7]], a[8])[2] = a[2]
Declarable(c, as) ==
    /\ \A i, j \in 1..Len(as) : as[i][1] = as[j][1] => i = j
    /\ \A i, j \in 1..Len(as) : as[i][5] = 1 /\ as[j][5] = 1 => i = j
    /\ \A i \in 1..Len(as) : as[i][2] \in Types /\ as[i][6] # 2 /\ Reference(c, as[i])
CreateTable(c, t, as) ==
    IF NoDB(c) THEN No(c)
    ELSE IF t \in DOMAIN DB(c).tab \/ ~Declarable(c, as) THEN No(c)
    ELSE Ok(With(c, [DB(c) EXCEPT !.tab = Put(DB(c).tab, t,
            [at |-> [i \in 1..Len(as) |-> <<as[i][1], as[i][2], as[i][3], as[i][4], as[i][5], as[i][7], IF as[i][7] = "-" THEN "-" ELSE as[i][8]>>],
             rows |-> 0, has |-> [i \in 1..Len(as) |-> 0]])]))
\* the indexes of a dropped table go with it, and so do the references to it
Unreferenced(tab, S) == [t \in DOMAIN tab \ S |-> [tab[t] EXCEPT !.at = [i \in 1..Len(tab[t].at) |->
    LET a == tab[t].at[i] IN IF a[6] \in S THEN [a EXCEPT ![6] = "-", ![7] = "-"] ELSE a]]]
Removed(c, S, I) == LET db == DB(c) IN
    With(c, [tab |-> Unreferenced(db.tab, S), idx |-> Cut(db.idx, I \cup {i \in DOMAIN db.idx : db.idx[i].table \in S})])
DropTables(c, ts, ifexists) ==
    IF NoDB(c) THEN No(c)
    ELSE IF ~ifexists /\ ~(RangeOf(ts) \subseteq DOMAIN DB(c).tab) THEN No(c)
    ELSE Ok(Removed(c, RangeOf(ts), {}))
\* rows is a sequence of rows of 0 (NULL) and 1 (some value)
Insert(c, t, rows) ==
    IF NoDB(c) THEN No(c)
    ELSE IF t \notin DOMAIN DB(c).tab THEN No(c)
    ELSE LET T == DB(c).tab[t] IN
         IF \E i \in 1..Len(rows) : Len(rows[i]) # Len(T.at) THEN No(c)
         ELSE Ok(With(c, [tab |-> Put(DB(c).tab, t, [T EXCEPT !.rows = T.rows + Len(rows),
                                      !.has = [k \in 1..Len(T.at) |-> T.has[k] + Cardinality({i \in 1..Len(rows) : rows[i][k] = 1})]]),
                          idx |-> [i \in DOMAIN DB(c).idx |-> IF DB(c).idx[i].table = t THEN [DB(c).idx[i] EXCEPT !.valid = FALSE] ELSE DB(c).idx[i]]]))

(*----- indexes -----*)
Indexable(type, method) == method \in {"array", "rmi"} /\ (method = "rmi" => KeyClass(type) \notin {"b", "s"})
CreateIndex(c, i, ifnot, t, a, m, unique, two) ==
    IF NoDB(c) THEN No(c)
    ELSE IF unique THEN No(c)
    ELSE IF i \in DOMAIN DB(c).idx THEN (IF ifnot THEN Ok(c) ELSE No(c))
    ELSE IF t \notin DOMAIN DB(c).tab \/ two THEN No(c)
    ELSE LET T == DB(c).tab[t] IN
         IF a \notin Attrs(T) THEN No(c)
         ELSE IF ~Indexable(AttrOf(T, a)[2], Method(m)) THEN No(c)
         ELSE Ok(With(c, [DB(c) EXCEPT !.idx = Put(DB(c).idx, i,
                 [table |-> t, attr |-> a, method |-> Method(m), valid |-> TRUE, n |-> T.has[IndexOf(T, a)]])]))
DropIndexes(c, is, ifexists) ==
    IF NoDB(c) THEN No(c)
    ELSE IF ~ifexists /\ ~(RangeOf(is) \subseteq DOMAIN DB(c).idx) THEN No(c)
    ELSE Ok(Removed(c, {}, RangeOf(is)))

Effect(c, o) ==
    CASE o[1] = "createdb" -> CreateDb(c, o[2])
      [] o[1] = "dropdb" -> DropDb(c, o[2], o[3] = 1)
      [] o[1] = "use" -> Use(c, o[2])
      [] o[1] = "createtable" -> CreateTable(c, o[2], o[3])
      [] o[1] = "droptable" -> DropTables(c, o[2], o[3] = 1)
      [] o[1] = "insert" -> Insert(c, o[2], o[3])
      [] o[1] = "createindex" -> CreateIndex(c, o[2], o[3] = 1, o[4], o[5], o[6], o[7] = 1, o[8] = 1)
      [] o[1] = "dropindex" -> DropIndexes(c, o[2], o[3] = 1)

(* A command that was analysed when the catalog was c and is executed later: what it stands for then.  IF [NOT] EXISTS
   was decided at its analysis, and so was the type of the keys of an index.  Tables or indexes to be removed that have
   gone in the meantime are complained about, and the others are removed. *)
Resolve(c, o) ==
    CASE o[1] = "dropdb" -> IF o[2] \in DOMAIN c.dbs THEN <<"dropdb", o[2], 0>> ELSE <<"nothing">>
      [] o[1] = "droptable" -> <<"remove", RangeOf(o[2]) \cap DOMAIN DB(c).tab, {}>>
      [] o[1] = "dropindex" -> <<"remove", {}, RangeOf(o[2]) \cap DOMAIN DB(c).idx>>
      [] o[1] = "createindex" -> IF o[2] \in DOMAIN DB(c).idx THEN <<"nothing">>
                                 ELSE <<"buildindex", o[2], o[4], o[5], Method(o[6]), KeyClass(AttrOf(DB(c).tab[o[4]], o[5])[2])>>
      [] OTHER -> o
Later(c, o) ==
    CASE o[1] = "nothing" -> Ok(c)
      [] o[1] = "remove" -> <<o[2] \subseteq DOMAIN DB(c).tab /\ o[3] \subseteq DOMAIN DB(c).idx, Removed(c, o[2], o[3])>>
      [] o[1] = "buildindex" ->
            IF o[3] \notin DOMAIN DB(c).tab THEN No(c)
            ELSE IF o[4] \notin Attrs(DB(c).tab[o[3]]) THEN No(c)
            ELSE IF KeyClass(AttrOf(DB(c).tab[o[3]], o[4])[2]) # o[6] THEN No(c)
            ELSE CreateIndex(c, o[2], FALSE, o[3], o[4], o[5], FALSE, FALSE)
      [] OTHER -> Effect(c, o)

(*----- what holds of every catalog -----*)
Sound(c) ==
    /\ c.use = "-" \/ c.use \in DOMAIN c.dbs
    /\ \A d \in DOMAIN c.dbs : LET db == c.dbs[d] IN
        /\ \A i \in DOMAIN db.idx : LET x == db.idx[i] IN
            /\ x.table \in DOMAIN db.tab /\ x.attr \in Attrs(db.tab[x.table])
            /\ Indexable(AttrOf(db.tab[x.table], x.attr)[2], x.method)
            /\ x.valid => x.n = db.tab[x.table].has[IndexOf(db.tab[x.table], x.attr)]     \* a valid index is up to date
        /\ \A t \in DOMAIN db.tab : \A k \in 1..Len(db.tab[t].at) : LET a == db.tab[t].at[k] IN
            a[6] # "-" => /\ a[6] \in DOMAIN db.tab /\ a[7] \in Attrs(db.tab[a[6]])
                          /\ AttrOf(db.tab[a[6]], a[7])[2] = a[2]
=============================================================================
