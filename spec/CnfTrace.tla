----------------------------- MODULE CnfTrace -----------------------------
(* ["cnf", e, f]: f is the normal form of e.  ["and"|"or", d, e, f], ["not", e, f]: f was computed from the normal forms of the
   expressions.  ["cl", c, d, c_or_d, c_and_d, not_c]: clauses (as normal forms of one clause) and what their operators gave. *)
EXTENDS Cnf, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
Ev == Traces[tid].ev
Range(s) == {s[i] : i \in 1..Len(s)}
Bools == Range(Traces[tid].bools)
Init == tid \in 1..Len(Traces) /\ l = 1
Sound(f, A) == FormAtoms(f) \subseteq A
Holds == LET e == Ev[l] IN
    CASE e[1] = "cnf" -> LET A == Atoms(e[2], Bools) IN
                         Sound(e[3], A) /\ \A v \in Values(A) : Form(e[3], 1, v) = Eval(e[2], Bools, v)
      [] e[1] \in {"and", "or"} -> LET A == Atoms(e[2], Bools) \cup Atoms(e[3], Bools) IN
            Sound(e[4], A) /\ \A v \in Values(A) :
                LET a == Eval(e[2], Bools, v)  b == Eval(e[3], Bools, v) IN
                Form(e[4], 1, v) = IF e[1] = "and" THEN Min2(a, b) ELSE Max2(a, b)
      [] e[1] = "not" -> LET A == Atoms(e[2], Bools) IN
            Sound(e[3], A) /\ \A v \in Values(A) : Form(e[3], 1, v) = Neg(Eval(e[2], Bools, v))
      [] e[1] = "cl" -> LET A == FormAtoms(e[2]) \cup FormAtoms(e[3]) IN
            Sound(e[4] \o e[5] \o e[6], A) /\ \A v \in Values(A) :
                LET a == Form(e[2], 1, v)  b == Form(e[3], 1, v) IN
                Form(e[4], 1, v) = Max2(a, b) /\ Form(e[5], 1, v) = Min2(a, b) /\ Form(e[6], 1, v) = Neg(a)
      [] OTHER -> FALSE
Next == l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l>>
NoReject == l <= Len(Ev) => Holds
=============================================================================
