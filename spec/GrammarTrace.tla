--------------------------- MODULE GrammarTrace ---------------------------
(* ["parse", tokens, errors, trees, tokens2, errors2, trees2]: the tokens of a text, the errors reported and the trees built when it
   was parsed; then the same for the text obtained by printing the trees (if there were no errors).
   ["accept", tokens, errors, trees]: parsed only. *)
EXTENDS Grammar, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
Ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1
Parsed(e) == LET p == Program(e[2], 1, <<>>) IN IF Ok(p) THEN e[3] = 0 /\ e[4] = p[2] ELSE e[3] # 0
Holds == \/ Ev[l][1] = "accept" /\ Parsed(Ev[l])
         \/ /\ Ev[l][1] = "parse"
            /\ Parsed(Ev[l])
            /\ Ev[l][3] = 0 => LET e == Ev[l]
                                   q == Program(e[5], 1, <<>>)
                               IN e[6] = 0 /\ Ok(q) /\ e[7] = q[2] /\ SameAll(q[2]) = SameAll(e[4])
Next == l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l>>
NoReject == l <= Len(Ev) => Holds
=============================================================================
