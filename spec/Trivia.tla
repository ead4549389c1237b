------------------------------- MODULE Trivia --------------------------------
(***************************************************************************)
(* C10: parsing depends on the tokens, not on what lies between them.  A   *)
(* record is a sequence of variants, layouts of one token sequence:        *)
(*   toks   <<start, end>> of its tokens       len   length                *)
(*   r, s, e, ev   outcome; ev is the tree's postorder without trivia      *)
(*                 (leaf <<symbol, start, end>>, node <<symbol, children>>)*)
(* All variants are read in step with the first one; `k` counts the tokens *)
(* passed, so a leaf is the k-th token in all of them.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, j, i, k, v        \* record, variant, event, tokens passed
vars == <<t, j, i, k, v>>
Init == /\ t \in 1..Len(Data) /\ i = 1 /\ k = 0 /\ v = "run"
        /\ j = 2
Fail(w, a, b) == PrintT(<<"MISMATCH", t, j, w, a, b>>) /\ v' = "bad" /\ UNCHANGED <<t, j, i, k>>

\* the token an error points to; 0 if it is none of them; one more than the last for the end
Offender(d) == IF d.s = d.len /\ d.e = d.len /\ (Len(d.toks) = 0 \/ d.toks[Len(d.toks)] # <<d.s, d.e>>) THEN Len(d.toks) + 1
               ELSE IF \E n \in 1..Len(d.toks) : d.toks[n] = <<d.s, d.e>>
                    THEN CHOOSE n \in 1..Len(d.toks) : d.toks[n] = <<d.s, d.e>> ELSE 0
IsLeaf(x) == Len(x) = 3
\* events i.. of the variant up to and including its next leaf
NextLeaf(ev) == IF \E n \in i..Len(ev) : IsLeaf(ev[n])
                THEN CHOOSE n \in i..Len(ev) : IsLeaf(ev[n]) /\ \A m \in i..(n - 1) : ~IsLeaf(ev[m])
                ELSE Len(ev)
Same(d, x, y, c) ==       \* events x of variant 1 and y of variant j agree; c: the token a leaf must be
    IF IsLeaf(x) THEN /\ IsLeaf(y) /\ x[1] = y[1]
                      /\ c <= Len(d[1].toks) /\ c <= Len(d[j].toks)
                      /\ <<x[2], x[3]>> = d[1].toks[c] /\ <<y[2], y[3]>> = d[j].toks[c]
    ELSE x = y
Advance(d) ==
    IF j > Len(d) THEN v' = "ok" /\ UNCHANGED <<t, j, i, k>>
    ELSE LET a == d[1]   b == d[j] IN
    IF a.r # b.r THEN Fail("outcome", a.r, b.r)
    ELSE IF a.r # "ok"
    THEN IF a.r = "syn" /\ Offender(a) # Offender(b) THEN Fail("offending token", Offender(a), Offender(b))
         ELSE j' = j + 1 /\ i' = 1 /\ k' = 0 /\ UNCHANGED <<t, v>>
    ELSE IF Len(a.ev) # Len(b.ev) THEN Fail("size", Len(a.ev), Len(b.ev))
    ELSE IF i > Len(a.ev) THEN
         IF k # Len(a.toks) THEN Fail("tokens", k, Len(a.toks))
         ELSE j' = j + 1 /\ i' = 1 /\ k' = 0 /\ UNCHANGED <<t, v>>
    ELSE LET n == NextLeaf(a.ev) IN
         IF \A m \in i..n : Same(d, a.ev[m], b.ev[m], k + 1)
         THEN /\ i' = n + 1 /\ k' = IF IsLeaf(a.ev[n]) THEN k + 1 ELSE k
              /\ UNCHANGED <<t, j, v>>
         ELSE Fail("tree", SubSeq(a.ev, i, n), SubSeq(b.ev, i, n))
Next == \/ v = "run" /\ Advance(Data[t])
        \/ v # "run" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
