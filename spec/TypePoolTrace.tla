--------------------------- MODULE TypePoolTrace ---------------------------
(* ["types", entries]: types made in some order, each twice; an entry is <<type asked for, type got, object, size, alignment,
   object of its scalar, object of its vector form>>.  ["joins", <<a, b, join>>..].  ["functions", <<<<result, parameters..>>, object>>..] *)
EXTENDS Types, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
Ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1
Range(s) == {s[i] : i \in 1..Len(s)}
\* equal keys, and only they, have the same object
OneToOne(S) == Cardinality({p[1] : p \in S}) = Cardinality(S) /\ Cardinality({p[2] : p \in S}) = Cardinality(S)
Holds == LET e == Ev[l] IN
    CASE e[1] = "types" -> LET E == Range(e[2])
                               P == {<<x[1], x[3]>> : x \in E}
                               Obj == [t \in {p[1] : p \in P} |-> (CHOOSE p \in P : p[1] = t)[2]] IN
                           /\ OneToOne(P)
                           /\ \A x \in E : /\ x[2] = x[1]
                                            /\ x[4] = Size(x[1][1]) /\ x[5] = Align(x[1][1])
                                            /\ x[6] = Obj[<<x[1][1], "scalar">>] /\ x[7] = Obj[<<x[1][1], "vector">>]
      [] e[1] = "joins" -> \A x \in Range(e[2]) : x[3] = <<JoinTypes(x[1][1], x[2][1]), Cat(x[1], x[2])>>
      [] e[1] = "functions" -> OneToOne({<<x[1], x[2]>> : x \in Range(e[2])})
      [] OTHER -> FALSE
Next == l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l>>
NoReject == l <= Len(Ev) => Holds
=============================================================================
