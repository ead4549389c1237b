------------------------------- MODULE Compose -------------------------------
(***************************************************************************)
(* C12: statements compose.  A record: parts, inputs that were parsed on   *)
(* their own, and whole, the parse of them all joined with semicolons:     *)
(*   spine   symbols of the nodes that only string statements together     *)
(*   semi    symbol of the semicolon                                       *)
(*   parts   <<[r, s, e, len, off, ev]>>; off: where the part starts in    *)
(*           the joined input                                              *)
(*   at      <<p>>: where the semicolon after part k stands                *)
(*   whole   [r, s, e, len, ev]                                            *)
(* Trees are postorders without trivia.  Without the spine, the joined     *)
(* tree must be the parts' trees one after the other, a semicolon between  *)
(* each two.  The machine consumes part after part from the joined tree.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, k, i, v           \* record, next part, events of the whole consumed
vars == <<t, k, i, v>>
In(x, s) == \E n \in 1..Len(s) : s[n] = x
Stmts(d, ev) == SelectSeq(ev, LAMBDA x : ~In(x[1], d.spine))
ShiftBy(ev, o) == [n \in 1..Len(ev) |-> IF Len(ev[n]) = 3 THEN <<ev[n][1], ev[n][2] + o, ev[n][3] + o>> ELSE ev[n]]
Init == t \in 1..Len(Data) /\ k = 1 /\ i = 0 /\ v = "run"
Fail(w, a, b) == PrintT(<<"MISMATCH", t, k, w, a, b>>) /\ v' = "bad" /\ UNCHANGED <<t, k, i>>
Good == v' = "ok" /\ UNCHANGED <<t, k, i>>

\* part k is wrong: the whole fails where the part does
Blame(d, p) ==
    LET w == d.whole IN
    IF p.r # "syn" THEN Good           \* a scan error: nothing is claimed
    ELSE IF p.s = p.len
    THEN \* it ends too early: what follows may complete it, nothing before may be blamed
         LET from == IF k < Len(d.parts) THEN d.at[k] ELSE w.len IN
         IF w.r = "syn" /\ w.s >= from THEN Good
         ELSE IF w.r = "ok" /\ k < Len(d.parts) THEN Good
         ELSE Fail("end of a part", from, <<w.r, w.s, w.e>>)
    ELSE IF w.r = "syn" /\ w.s = p.off + p.s /\ w.e = p.off + p.e THEN Good
    ELSE Fail("error", <<p.off + p.s, p.off + p.e>>, <<w.r, w.s, w.e>>)

Consume(d) ==
    LET all == \A n \in 1..Len(d.parts) : d.parts[n].r = "ok" IN
    IF k > Len(d.parts)
    THEN IF Len(Stmts(d, d.whole.ev)) = i THEN Good ELSE Fail("more", i, Len(Stmts(d, d.whole.ev)))
    ELSE IF d.parts[k].r # "ok" THEN Blame(d, d.parts[k])
    ELSE IF ~all THEN k' = k + 1 /\ UNCHANGED <<t, i, v>>
    ELSE IF d.whole.r # "ok" THEN Fail("outcome", "ok", <<d.whole.r, d.whole.s, d.whole.e>>)
    ELSE LET p == d.parts[k]
             want == ShiftBy(Stmts(d, p.ev), p.off)
                     \o (IF k < Len(d.parts) THEN << <<d.semi, d.at[k], d.at[k] + 1>> >> ELSE <<>>)
             w == Stmts(d, d.whole.ev)
             got == SubSeq(w, i + 1, IF i + Len(want) < Len(w) THEN i + Len(want) ELSE Len(w))
         IN IF got # want THEN Fail("tree", want, got)
            ELSE k' = k + 1 /\ i' = i + Len(want) /\ UNCHANGED <<t, v>>
Next == \/ v = "run" /\ Consume(Data[t])
        \/ v # "run" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
