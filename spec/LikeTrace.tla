----------------------------- MODULE LikeTrace -----------------------------
(* ["like", s, p, a, b, c, d, e]: s LIKE p by like(), the regular expression of p, the optimised one; then with ! as escape character by
   like() and the regular expression.  ["esc", s, escape(s), unescape(escape(s)), unescape(s), interpret(quote(escape(s)))] *)
EXTENDS Like, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
Ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1
Holds == LET e == Ev[l] IN
    \/ /\ e[1] = "like"
       /\ LET x == Like(e[2], e[3], 92) IN e[4] = x /\ e[5] = x /\ e[6] = x
       /\ LET x == Like(e[2], e[3], 33) IN e[7] = x /\ e[8] = x
    \/ e[1] = "esc" /\ e[3] = Esc(e[2], 1) /\ e[4] = e[2] /\ e[5] = Unesc(e[2], 1) /\ e[6] = e[2]
Next == l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l>>
NoReject == l <= Len(Ev) => Holds
=============================================================================
