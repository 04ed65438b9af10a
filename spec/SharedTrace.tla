---------------------------- MODULE SharedTrace ----------------------------
(* Owners of objects: slots 1..8 share (1..3 base, 4..5 D, 6 X, 7..8 const base), slots 9..13 own alone.  Events end with the object of every
   slot (0 none), the use counts of the sharing slots, and the destructions so far (the object's number, + 100 for the destructor of D,
   + 200 for that of X). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, S, ty, dead
vars == <<tid, l, S, ty, dead>>
Ev == Traces[tid].ev
SHARING == 1..8
Init == tid \in 1..Len(Traces) /\ l = 1 /\ S = [s \in 1..13 |-> 0] /\ ty = <<>> /\ dead = <<>>
Owners(T, o) == {s \in 1..13 : T[s] = o}
Count(T, s) == IF T[s] = 0 THEN 0 ELSE Cardinality(Owners(T, T[s]) \cap SHARING)
Dying(o, t) == (IF t = "D" THEN <<o + 100>> ELSE IF t = "X" THEN <<o + 200>> ELSE <<>>) \o <<o>>
Died(T, U) == {o \in {T[s] : s \in 1..13} \ {0} : Owners(U, o) = {}}
\* T: the slots afterwards; p: where the event shows them
To(T, Y, e, p) ==
    /\ S' = T /\ ty' = Y
    /\ dead' = dead \o (IF Died(S, T) = {} THEN <<>> ELSE LET o == CHOOSE o \in Died(S, T) : TRUE IN Dying(o, ty[o]))
    /\ e[p] = T
    /\ e[p + 1] = [s \in SHARING |-> Count(T, s)]
    /\ e[p + 2] = dead'
Set(s, o) == [S EXCEPT ![s] = o]
Is(o, t) == o # 0 /\ ty[o] = t
Step == LET e == Ev[l] IN
    CASE e[1] = "make" -> To(Set(e[2], e[3]), Append(ty, e[4]), e, 5) /\ e[3] = Len(ty) + 1
      [] e[1] = "copy" -> To(Set(e[2], S[e[3]]), ty, e, 4)
      [] e[1] \in {"move", "share"} -> To([Set(e[2], S[e[3]]) EXCEPT ![e[3]] = 0], ty, e, 4)
      [] e[1] = "reset" -> To(Set(e[2], 0), ty, e, 3)
      [] e[1] = "swap" -> To([S EXCEPT ![e[2]] = S[e[3]], ![e[3]] = S[e[2]]], ty, e, 4)
      [] e[1] = "cast" -> To(Set(e[2], IF Is(S[e[3]], e[4]) THEN S[e[3]] ELSE 0), ty, e, 5)
      [] e[1] = "is" -> To(S, ty, e, 4) /\ e[3] = Is(S[e[2]], "D")
      [] e[1] = "unique" -> LET o == S[e[3]] IN
            IF o # 0 /\ Count(S, e[3]) > 1 THEN e[4] = FALSE /\ To(S, ty, e, 5)
            ELSE e[4] = TRUE /\ To([Set(e[2], o) EXCEPT ![e[3]] = 0], ty, e, 5)
      [] e[1] = "gone" -> /\ \A i \in 1..13 : e[2][i] = 0
                          /\ {e[4][i] : i \in 1..Len(e[4])} = UNION {{Dying(o, ty[o])[i] : i \in 1..Len(Dying(o, ty[o]))} : o \in 1..Len(ty)}
                          /\ \A i, j \in 1..Len(e[4]) : i # j => e[4][i] # e[4][j]
                          /\ UNCHANGED <<S, ty, dead>>
      [] OTHER -> FALSE
Next == l <= Len(Ev) /\ Step /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
NoReject == l <= Len(Ev) => ENABLED Next
=============================================================================
