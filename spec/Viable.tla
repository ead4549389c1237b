------------------------------- MODULE Viable --------------------------------
(***************************************************************************)
(* The set of tokens that may follow a prefix.  A record: toks, the        *)
(* scanned tokens of the prefix; and how each of the alternatives fared    *)
(* behind it: ok (the alternative itself was taken), no (it was complained *)
(* about), early (something before it was).  An alternative is a sequence  *)
(* of scanned tokens (a look-ahead keyword comes with the word that makes  *)
(* it one); Alts lists them.                                               *)
(***************************************************************************)
EXTENDS Machine
Input == JsonDeserialize(IOEnv.TRACE)
Data == Input.data
Alts == Input.alts
VARIABLES t, v
vars == <<t, v>>

\* of the symbols A, those that can come next on this stack
RECURSIVE Follow(_, _)
Follow(st, A) ==
    LET s == Top(st)
        red == {Action(s, a) : a \in A} \cap {-r : r \in 1..Len(Tab.rules)}
        After(r) == LET below == SubSeq(st, 1, Len(st) - Arity(r))
                    IN Append(below, Entry(GotoState(Top(below), Lhs(r)), FALSE, 0, 0))
    IN {a \in A : Action(s, a) > 0} \cup UNION {Follow(After(-r), {a \in A : Action(s, a) = r}) : r \in red}

\* the stack after tokens i.. of ts, or <<>> if one of them is not viable; `n` tokens are fed
Feed(st, ts, n) ==
    LET RECURSIVE F(_, _)
        F(q, i) == IF i > n THEN q
                   ELSE LET r == Reduce(q, Filtered(ts, i), <<>>, FALSE, FALSE)
                        IN IF r[2] <= 0 \/ r[2] = Accept THEN <<>> ELSE F(Shift(r[1], r[2], <<>>), i + 1)
    IN F(st, 1)

First(j) == Filtered(Alts[j], 1)
AltSyms == {First(j) : j \in 1..Len(Alts)}
All == 1..Len(Alts)

\* prefixes that end with a look-ahead keyword: what they are depends on the alternative
Expected(d) ==
    LET n == Len(d.toks) IN
    IF n > 0 /\ d.toks[n][1] \in Mergers
    THEN LET st == TLCEval(Feed(Bottom, d.toks, n - 1))
             Kind(j) == Filtered(d.toks \o Alts[j], n)
             ks == {Kind(j) : j \in All}
             After == [k \in ks |-> LET r == Reduce(st, k, <<>>, FALSE, FALSE)
                                    IN IF r[2] <= 0 THEN <<>> ELSE Shift(r[1], r[2], <<>>)]
             Set == [k \in ks |-> IF After[k] = <<>> THEN {} ELSE Follow(After[k], AltSyms)]
             early == {j \in All : After[Kind(j)] = <<>>}
         IN [ok |-> {j \in All \ early : First(j) \in Set[Kind(j)]}, early |-> early]
    ELSE LET st == TLCEval(Feed(Bottom, d.toks, n))
             f == Follow(st, AltSyms)
         IN [ok |-> {j \in All : First(j) \in f}, early |-> {}]

Range(q) == {q[i] : i \in 1..Len(q)}
Init == t \in 1..Len(Data) /\ v = "run"
Judge(d) ==
    LET x == TLCEval(Expected(d))
        ok == Range(d.ok)
        early == Range(d.early)
        odd == Range(d.odd)
    IN IF ok = x.ok /\ early = x.early /\ odd = {} THEN v' = "ok"
       ELSE /\ PrintT(<<"MISMATCH", t, x.ok \ ok, ok \ x.ok, x.early \ early, early \ x.early, odd>>)
            /\ v' = "bad"
Next == \/ v = "run" /\ Judge(Data[t]) /\ UNCHANGED t
        \/ v # "run" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
