-------------------------------- MODULE Total --------------------------------
(***************************************************************************)
(* C02: a call of parse returns.  A call is a step from "called" to one of *)
(* the four ways to return; a panic, an abort, a hang or a return after    *)
(* more than Limit microseconds is no step of this machine, and an error   *)
(* position outside the input, inside a character or with its end before   *)
(* its start is not either.  A record:                                     *)
(*   b        bytes of the input (<<>> if the input is long: then n says   *)
(*            how long, and it is ASCII)                                   *)
(*   n        its length                                                   *)
(*   r        "ok", "err", "rep", "syn", or something else                 *)
(*   p, s, e  position of a report; range of a syntax error                *)
(*   m        whether the error carries a message                          *)
(*   us       time taken, 0 if it was not taken                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
Limit == 60000000
VARIABLES t, pc
vars == <<t, pc>>
Init == t \in 1..Len(Data) /\ pc = "called"
\* a position between two characters
Boundary(d, k) ==
    /\ k >= 0 /\ k <= d.n
    /\ (k = d.n \/ d.b = <<>> \/ d.b[k + 1] \notin 128..191)
ReturnTree(d)   == d.r = "ok"
ReturnError(d)  == d.r = "err" /\ d.m
ReturnReport(d) == d.r = "rep" /\ d.m /\ Boundary(d, d.p)
ReturnSyntax(d) == d.r = "syn" /\ d.m /\ Boundary(d, d.s) /\ Boundary(d, d.e) /\ d.s <= d.e
Return(d) == (ReturnTree(d) \/ ReturnError(d) \/ ReturnReport(d) \/ ReturnSyntax(d)) /\ d.us < Limit
Next == /\ pc = "called"
        /\ LET d == Data[t] IN
           IF Return(d) THEN pc' = d.r
           ELSE PrintT(<<"MISMATCH", t, d.r, d.p, d.s, d.e, d.us>>) /\ pc' = "bad"
        /\ UNCHANGED t
Done == pc # "called" /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Done]_vars
=============================================================================
