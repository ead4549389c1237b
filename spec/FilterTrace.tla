---------------------------- MODULE FilterTrace ------------------------------
(***************************************************************************)
(* C06: the token list the parser is given is the filtered scan.  A record *)
(* is [s |-> scanned, f |-> filtered], lists of <<symbol, start, end>>     *)
(* with comments; symbols outside the grammar have numbers above 10000.    *)
(* The filter is a transducer that reads one token at a time.              *)
(***************************************************************************)
EXTENDS Filter
Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, v
vars == <<t, i, v>>
Init == t \in 1..Len(Data) /\ i = 1 /\ v = "run"
Fail(want, got) == PrintT(<<"MISMATCH", t, i, want, got>>) /\ v' = "bad" /\ UNCHANGED <<t, i>>
Move(d) ==
    IF i > Len(d.s)
    THEN IF Len(d.f) > Len(d.s) THEN Fail(<<>>, d.f[i]) ELSE v' = "ok" /\ UNCHANGED <<t, i>>
    ELSE LET want == <<Filtered(d.s, i), d.s[i][2], d.s[i][3]>> IN
         IF i > Len(d.f) THEN Fail(want, <<>>)
         ELSE IF d.f[i] # want THEN Fail(want, d.f[i])
         ELSE i' = i + 1 /\ UNCHANGED <<t, v>>
Next == \/ v = "run" /\ Move(Data[t])
        \/ v # "run" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
