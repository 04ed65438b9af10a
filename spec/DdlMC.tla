------------------------------- MODULE DdlMC -------------------------------
(* All histories of definitions over a few names, up to a bound: the catalog stays sound, and what is refused changes nothing. *)
EXTENDS Ddl
CONSTANTS DBs, Tabs, Idxs, MAXSTEPS, MAXROWS
VARIABLES cat, pending, steps
vars == <<cat, pending, steps>>
A(n, t, rt, ra) == <<n, t, 0, 0, 0, 0, rt, ra>>
Decls == {<<A("a", "i4", "-", "-")>>, <<A("a", "c5", "-", "-"), A("b", "i4", "-", "-")>>} \cup {<<A("b", "i4", t, "a")>> : t \in Tabs}
Ops == {<<"createdb", d>> : d \in DBs} \cup {<<"dropdb", d, e>> : d \in DBs, e \in {0, 1}} \cup {<<"use", d>> : d \in DBs}
    \cup {<<"createtable", t, as>> : t \in Tabs, as \in Decls} \cup {<<"droptable", <<t>>, e>> : t \in Tabs, e \in {0, 1}}
    \cup {<<"insert", t, <<r>>>> : t \in Tabs, r \in {<<0>>, <<1>>, <<1, 1>>}}
    \cup {<<"createindex", i, e, t, a, m, 0, 0>> : i \in Idxs, e \in {0, 1}, t \in Tabs, a \in {"a", "b"}, m \in {"array", "rmi"}}
    \cup {<<"dropindex", <<i>>, e>> : i \in Idxs, e \in {0, 1}}
    \cup {<<"dropindex", <<i, j>>, e>> : i, j \in Idxs, e \in {0, 1}}
Init == cat = [use |-> "-", dbs |-> Empty] /\ pending = <<>> /\ steps = 0
Small(c) == \A d \in DOMAIN c.dbs : \A t \in DOMAIN c.dbs[d].tab : c.dbs[d].tab[t].rows <= MAXROWS
Do == \E o \in Ops : LET e == Effect(cat, o) IN e[1] /\ Small(e[2]) /\ cat' = e[2] /\ UNCHANGED pending
Prepare == pending = <<>> /\ \E o \in Ops : /\ Effect(cat, o)[1] /\ o[1] # "insert" /\ (o[1] = "createtable" => o[3][1][7] = "-")
                                            /\ pending' = <<Resolve(cat, o)>> /\ UNCHANGED cat
Run == pending # <<>> /\ cat' = Later(cat, pending[1])[2] /\ pending' = <<>>
Next == steps < MAXSTEPS /\ steps' = steps + 1 /\ (Do \/ Prepare \/ Run)
Spec == Init /\ [][Next]_vars
AlwaysSound == Sound(cat)
RefusedIsUnchanged == \A o \in Ops : LET e == Effect(cat, o) IN ~e[1] => e[2] = cat
=============================================================================
