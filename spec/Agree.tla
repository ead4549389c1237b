-------------------------------- MODULE Agree --------------------------------
(***************************************************************************)
(* Two runs of the same input -- by two builds, two engines, or at two     *)
(* times -- give the same observation.  A record is <<a, b>>; each side is *)
(* a sequence of observed events (the outcome first).  The two are walked  *)
(* in step; a state is how far both have gone.  Steps of K events at once. *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
K == 64
VARIABLES t, i, v
vars == <<t, i, v>>
Init == t \in 1..Len(Data) /\ i = 0 /\ v = "run"
Part(s) == SubSeq(s, i + 1, IF i + K < Len(s) THEN i + K ELSE Len(s))
First(a, b) == CHOOSE k \in 1..(K + 1) :
                 /\ \A j \in 1..(k - 1) : j <= Len(a) /\ j <= Len(b) /\ a[j] = b[j]
                 /\ ~(k <= Len(a) /\ k <= Len(b) /\ a[k] = b[k])
At(s, k) == IF k <= Len(s) THEN s[k] ELSE <<"END">>
Compare(a, b) ==
    IF Part(a) # Part(b)
    THEN LET k == First(Part(a), Part(b)) IN
         /\ PrintT(<<"MISMATCH", t, i + k, At(Part(a), k), At(Part(b), k)>>)
         /\ v' = "bad" /\ UNCHANGED <<t, i>>
    ELSE IF i + K >= Len(a) /\ i + K >= Len(b) THEN v' = "ok" /\ UNCHANGED <<t, i>>
    ELSE i' = i + K /\ UNCHANGED <<t, v>>
Next == \/ v = "run" /\ Compare(Data[t][1], Data[t][2])
        \/ v # "run" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
