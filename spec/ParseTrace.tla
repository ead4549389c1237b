----------------------------- MODULE ParseTrace ------------------------------
(***************************************************************************)
(* Is each recorded parse a behaviour of the parser -- Scanner, Filter and *)
(* Machine?  A record:                                                     *)
(*   scan   TRUE: start from the bytes b, through Scanner                  *)
(*          FALSE: start from toks, tokens and comments <<symbol, start,   *)
(*          end>> the input was composed of                                *)
(*   len    length of the input                                            *)
(*   mode   "tree"   shape without trivia     "full"  with elided nodes    *)
(*          "trivia" shape with trivia                                     *)
(*          "accept" only whether and where it fails                       *)
(*   r      "ok"; "syn" with the range s..e; "err", "rep" with message m   *)
(*          (and position p); or anything else, which nothing allows       *)
(*   ev     postorder of the real tree (see Machine)                       *)
(***************************************************************************)
EXTENDS Machine, Scanner
Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES t,      \* the record
          toks,   \* its tokens, if they come from Scanner
          i,      \* next token
          last,   \* end of the previous token or comment
          pend,   \* trivia since the previous token
          st,     \* stack
          e,      \* events of the recorded tree matched so far
          v       \* "scan", "run", "ok" or "bad"
vars == <<t, toks, i, last, pend, st, e, v>>

Number(k) == Tab.tokid[k]          \* 0 for a symbol that is not in the grammar
Scanned(d) == IF d.scan THEN Scan(d.b) ELSE <<d.toks, <<"END">>>>
Numbered(ts) == [j \in 1..Len(ts) |-> <<Number(ts[j][1]), ts[j][2], ts[j][3]>>]
ScanOutcome(d) == CASE d.r = "err" -> <<"ERR", d.m>> [] d.r = "rep" -> <<"REP", d.m, d.p>> [] OTHER -> <<"END">>

Init == /\ t \in 1..Len(Data) /\ toks = <<>>
        /\ i = 1 /\ last = 0 /\ pend = <<>> /\ st = Bottom /\ e = 0
        /\ v = IF Data[t].scan \/ ScanOutcome(Data[t]) # <<"END">> THEN "scan" ELSE "run"

Bad(what, want, got) ==
    /\ PrintT(<<"MISMATCH", t, i, what, want, got>>)
    /\ v' = "bad" /\ UNCHANGED <<t, toks, i, last, pend, st, e>>
Good == v' = "ok" /\ UNCHANGED <<t, toks, i, last, pend, st, e>>

T(d) == IF d.scan THEN toks ELSE d.toks
\* the recorded tree continues with the events x
Seen(d, x) == SubSeq(d.ev, e + 1, IF e + Len(x) < Len(d.ev) THEN e + Len(x) ELSE Len(d.ev))
White(p, q) == IF p < q THEN << <<WS, p, q>> >> ELSE <<>>

\* the whole input is scanned before anything is parsed
ScanAll(d) ==
    LET sc == TLCEval(Scanned(d)) IN
    IF sc[2] # ScanOutcome(d) THEN Bad("scan", sc[2], <<d.r, d.m, d.p>>)
    ELSE /\ toks' = IF d.scan THEN Numbered(sc[1]) ELSE <<>>
         /\ v' = IF sc[2] = <<"END">> THEN "run" ELSE "ok"
         /\ UNCHANGED <<t, i, last, pend, st, e>>

PeekComment(d) ==
    LET k == T(d)[i] IN
    /\ pend' = pend \o White(last, k[2]) \o <<k>>
    /\ last' = k[3] /\ i' = i + 1
    /\ UNCHANGED <<t, toks, st, e, v>>

Feed(d) ==
    LET ts    == T(d)
        atEnd == i > Len(ts)
        k     == IF atEnd THEN <<EndSym, d.len, d.len>> ELSE ts[i]
        a     == IF atEnd THEN EndSym ELSE Filtered(ts, i)
        trivia == d.mode = "trivia"
        r     == Reduce(st, a, <<>>, d.mode = "full", trivia)
        tr    == IF trivia THEN pend \o White(last, k[2]) ELSE <<>>
        evs   == CASE d.mode = "accept" \/ d.r # "ok" -> <<>>
                   [] r[2] = Accept ->
                        r[3] \o tr
                             \o << <<Root, Children(Tail(r[1]), 1, FALSE) + Len(tr)
                                           + (IF d.mode = "full" /\ ~r[1][2].full THEN 1 ELSE 0)>> >>
                   [] OTHER -> r[3] \o tr \o << <<a, k[2], k[3]>> >>
    IN IF r[2] = 0
       THEN IF d.r = "syn" /\ d.s = k[2] /\ d.e = k[3] THEN Good
            ELSE Bad("error", <<"syn", k[2], k[3]>>, <<d.r, d.s, d.e>>)
       ELSE IF d.r # "ok" /\ ~(d.r = "syn" /\ ~atEnd /\ d.s > k[2])
       THEN Bad("viable", a, <<d.r, d.s, d.e>>)
       ELSE IF Seen(d, evs) # evs THEN Bad("tree", evs, Seen(d, evs))
       ELSE IF r[2] = Accept
       THEN IF d.mode = "accept" \/ e + Len(evs) = Len(d.ev) THEN Good ELSE Bad("more", evs, Len(d.ev))
       ELSE /\ st' = Shift(r[1], r[2], tr)
            /\ i' = i + 1 /\ last' = k[3] /\ pend' = <<>> /\ e' = e + Len(evs)
            /\ UNCHANGED <<t, toks, v>>

AtComment(d) == IF i > Len(T(d)) THEN FALSE ELSE T(d)[i][1] \in Comments
Next == \/ v = "scan" /\ ScanAll(Data[t])
        \/ v = "run" /\ (IF AtComment(Data[t]) THEN PeekComment(Data[t]) ELSE Feed(Data[t]))
        \/ v \in {"ok", "bad"} /\ UNCHANGED vars
\* a behaviour is determined by its record, so position and verdict identify a state
View == <<t, i, v>>
Spec == Init /\ [][Next]_vars
=============================================================================
