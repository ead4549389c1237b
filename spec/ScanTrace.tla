----------------------------- MODULE ScanTrace -------------------------------
(***************************************************************************)
(* Is each recorded scan a behaviour of Scanner?  A record:                *)
(*   b    the input's bytes                                                *)
(*   cmp  "tokens"  s lists the tokens the real scanner returned           *)
(*        "errors"  only whether and how it failed was observed            *)
(*   r    how it ended: "ok", "err" (message m), "rep" (message m, detail  *)
(*        d, position p), anything else is not an outcome of a scanner     *)
(* One behaviour per record.                                               *)
(***************************************************************************)
EXTENDS Scanner
Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES t,      \* which record
          c,      \* scanner configuration
          k,      \* tokens produced so far
          v       \* "run", "ok" or "bad"
vars == <<t, c, k, v>>

Outcome(d) == CASE d.r = "ok"  -> <<"END">>
                [] d.r = "err" -> <<"ERR", d.m>>
                [] d.r = "rep" -> <<"REP", d.m, d.p>>
                [] OTHER       -> <<"NONE", d.r, d.m>>
Compared(d) == d.cmp = "tokens" /\ d.r = "ok"
Detail(o) == IF o[1] = "REP" THEN DetailOf(o[2]) ELSE ""

Bad(what, want, got) ==
    /\ PrintT(<<"MISMATCH", t, what, want, got>>)
    /\ v' = "bad" /\ UNCHANGED <<t, c, k>>

Init == /\ t \in 1..Len(Data)
        /\ c = Start(Data[t].b)
        /\ k = 0
        /\ v = "run"

Fires(d) ==      \* the scanner takes one step and the record has to follow
    LET n == Step(d.b, c) IN
    IF IsToken(n.out) /\ Compared(d)
    THEN IF k < Len(d.s) /\ d.s[k + 1] = n.out
         THEN c' = n /\ k' = k + 1 /\ UNCHANGED <<t, v>>
         ELSE Bad("token", n.out, IF k < Len(d.s) THEN d.s[k + 1] ELSE <<"END">>)
    ELSE c' = n /\ k' = k /\ UNCHANGED <<t, v>>
Ends(d) ==
    IF c.out = Outcome(d) /\ (Compared(d) => k = Len(d.s)) /\ (d.r = "rep" => d.d = Detail(c.out))
    THEN v' = "ok" /\ UNCHANGED <<t, c, k>>
    ELSE Bad("outcome", c.out, IF Compared(d) /\ k < Len(d.s) THEN d.s[k + 1] ELSE Outcome(d))

Next == \/ v = "run" /\ ~Stopped(c) /\ Fires(Data[t])
        \/ v = "run" /\ Stopped(c) /\ Ends(Data[t])
        \/ v # "run" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* sanity of the specification on the way: it stays inside the input and its tokens do not overlap
InBounds == /\ c.pos \in 0..Len(Data[t].b)
            /\ IsToken(c.out) => c.out[2] < c.out[3] /\ c.out[3] <= c.pos
            /\ c.tok <= c.pos
=============================================================================
