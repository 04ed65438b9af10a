----------------------------- MODULE DListTrace -----------------------------
(* [op, list, arguments, returned, then per list: forwards, backwards by reverse iterators, backwards from the end, the same on const,
   size, empty, <<front, back>>; number of live elements] *)
EXTENDS DList, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, L
vars == <<tid, l, L>>
Ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ l = 1 /\ L = <<<<>>, <<>>>>
Shows(e, p, s) == /\ e[p] = s /\ e[p + 1] = Reversed(s) /\ e[p + 2] = Reversed(s) /\ e[p + 3] = Reversed(s)
                  /\ e[p + 4] = Len(s) /\ e[p + 5] = (s = <<>>)
                  /\ e[p + 6] = (IF s = <<>> THEN <<>> ELSE <<s[1], s[Len(s)]>>)
Seen(e, M) == Shows(e, 5, M[1]) /\ Shows(e, 12, M[2]) /\ e[19] = Len(M[1]) + Len(M[2])
Step == LET e == Ev[l]  k == e[2]  a == e[3]  r == e[4]
            set(s, x) == r = x /\ L' = [L EXCEPT ![k] = s] IN
    IF e[1] = "gone" THEN e[2] = 0 /\ L' = L
    ELSE IF e[1] = "crash" THEN FALSE
    ELSE LET s == L[k] IN
      /\ CASE e[1] = "pushb" -> set(Append(s, a[1]), 0)
           [] e[1] = "pushf" -> set(<<a[1]>> \o s, 0)
           [] e[1] = "emplf" -> set(<<a[1]>> \o s, a[1])
           [] e[1] = "popb" -> set(SubSeq(s, 1, Len(s) - 1), s[Len(s)])
           [] e[1] = "popf" -> set(Tail(s), s[1])
           [] e[1] = "ins" -> set(InsertAt(s, a[1], <<a[2]>>), a[2])
           [] e[1] = "insn" -> set(InsertAt(s, a[1], Copies(a[2], a[3])), IF a[2] = 0 THEN At(s, a[1]) ELSE a[3])
           [] e[1] = "insr" -> set(InsertAt(s, a[1], a[2]), IF a[2] = <<>> THEN At(s, a[1]) ELSE a[2][1])
           [] e[1] = "era" -> set(RemoveAt(s, a[1]), At(s, a[1] + 1))
           [] e[1] = "clear" -> set(<<>>, 0)
           [] e[1] = "rev" -> set(Reversed(s), 0)
           [] e[1] = "swap" -> r = 0 /\ L' = <<L[2], L[1]>>
           [] e[1] = "copy" -> set(L[3 - k], 0)
           [] e[1] = "move" -> r = 0 /\ L' = [i \in 1..2 |-> IF i = k THEN L[3 - k] ELSE <<>>]
           [] OTHER -> FALSE
      /\ Seen(e, L')
Next == l <= Len(Ev) /\ Step /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
NoReject == l <= Len(Ev) => ENABLED Next
=============================================================================
