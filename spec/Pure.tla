-------------------------------- MODULE Pure ---------------------------------
(***************************************************************************)
(* C21: parse is a function.  A record is a history of one process:        *)
(*   calls   per thread, the observations <<input, result>> in program     *)
(*           order -- a call's result, and the result of the previous call *)
(*           looked at again after it                                      *)
(* Ref gives, per input, the result of a process that did nothing else.    *)
(* The specification has no state between calls: whatever the threads did  *)
(* before, a call of input x can only return Ref[x], in any interleaving.  *)
(* `next` is how many observations of each thread have been explained.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
File == JsonDeserialize(IOEnv.TRACE)
Ref == File.ref
Data == File.data
VARIABLES t, next, v
vars == <<t, next, v>>
Init == t \in 1..Len(Data) /\ next = [h \in 1..Len(Data[t]) |-> 1] /\ v = "run"
Pending(d) == {h \in 1..Len(d) : next[h] <= Len(d[h])}
\* independent steps commute; short histories are explored in every order
Choices(d) == IF Len(d) <= 3 /\ \A h \in 1..Len(d) : Len(d[h]) <= 6 THEN Pending(d)
              ELSE {CHOOSE h \in Pending(d) : \A g \in Pending(d) : h <= g}
Return(d, h) ==
    LET o == d[h][next[h]] IN
    IF o[2] = Ref[o[1]] THEN next' = [next EXCEPT ![h] = @ + 1] /\ UNCHANGED <<t, v>>
    ELSE PrintT(<<"MISMATCH", t, h, next[h], o[1], o[2], Ref[o[1]]>>) /\ v' = "bad" /\ UNCHANGED <<t, next>>
Next == \/ /\ v = "run"
           /\ IF Pending(Data[t]) = {} THEN v' = "ok" /\ UNCHANGED <<t, next>>
              ELSE \E h \in Choices(Data[t]) : Return(Data[t], h)
        \/ v # "run" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
