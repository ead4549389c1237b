-------------------------------- MODULE Expr ---------------------------------
(***************************************************************************)
(* C22: how operators group.  An operator-precedence machine over the      *)
(* documented table of levels; it knows nothing of the grammar's automaton.*)
(* A record:                                                               *)
(*   items   the expression: <<name, number of tokens>>                    *)
(*   r, s    outcome; token an error points to (1, 2, ...; 0: none of them)*)
(*   ev      the operator applications of the real tree, innermost first:  *)
(*           <<1 or 2 (a_expr or b_expr), first token, last token>>        *)
(* Names: "atom"; prefix, infix and postfix operators of the tables below; *)
(* "(" and ")"; "between" with its "and"; "escape".                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)

\* level, associativity, may occur in the lower bound of BETWEEN
Infix == [ or |-> <<3, "left", FALSE>>, and |-> <<4, "left", FALSE>>,
           isdistinct |-> <<6, "non", TRUE>>,
           lt |-> <<7, "non", TRUE>>, eq |-> <<7, "non", TRUE>>, ge |-> <<7, "non", TRUE>>, ne |-> <<7, "non", TRUE>>,
           gt |-> <<7, "non", TRUE>>, le |-> <<7, "non", TRUE>>,
           like |-> <<8, "non", FALSE>>, ilike |-> <<8, "non", FALSE>>, similar |-> <<8, "non", FALSE>>,
           notlike |-> <<8, "non", FALSE>>, notilike |-> <<8, "non", FALSE>>, notsimilar |-> <<8, "non", FALSE>>,
           op |-> <<12, "left", TRUE>>, operator |-> <<12, "left", TRUE>>,
           plus |-> <<13, "left", TRUE>>, minus |-> <<13, "left", TRUE>>,
           times |-> <<14, "left", TRUE>>, div |-> <<14, "left", TRUE>>, mod |-> <<14, "left", TRUE>>,
           power |-> <<15, "left", TRUE>>, attimezone |-> <<16, "left", FALSE>> ]
Postfix == [ isnull |-> <<6, FALSE>>, isnull2 |-> <<6, FALSE>>, notnull |-> <<6, FALSE>>, isnot |-> <<6, FALSE>>,
             isdocument |-> <<6, TRUE>>, isnormalized |-> <<6, FALSE>>, isjson |-> <<6, FALSE>>,
             in |-> <<8, FALSE>>, notin |-> <<8, FALSE>>, likeany |-> <<8, FALSE>>, eqany |-> <<7, FALSE>>,
             opall |-> <<12, FALSE>>, plusany |-> <<13, FALSE>>,
             atlocal |-> <<16, FALSE>>, collate |-> <<17, FALSE>>, cast |-> <<21, TRUE>> ]
Prefix == [ not |-> <<5, "right", FALSE>>, preop |-> <<12, "left", TRUE>>, preoperator |-> <<12, "left", TRUE>>,
            preplus |-> <<18, "right", TRUE>>, preminus |-> <<18, "right", TRUE>> ]
Likes == {"like", "ilike", "similar", "notlike", "notilike", "notsimilar"}
Between == {"between", "notbetween"}
BetweenLevel == 8

VARIABLES t, i, pos, st, e, v
vars == <<t, i, pos, st, e, v>>
\* stack entries: a value; a pending operator; an open parenthesis; an open BETWEEN
Ent(k, a, b, lev, assoc, like) == [k |-> k, a |-> a, b |-> b, lev |-> lev, assoc |-> assoc, like |-> like]
Val(a, b) == Ent("val", a, b, 0, "", FALSE)
Init == t \in 1..Len(Data) /\ i = 1 /\ pos = 1 /\ st = <<>> /\ e = 0 /\ v = "run"

IsVal(s)  == IF Len(s) = 0 THEN FALSE ELSE s[Len(s)].k = "val"
\* the pending operator under the value on top; "none" at a bracket or the bottom
Under(s)  == IF Len(s) < 2 THEN Ent("none", 0, 0, 0, "", FALSE) ELSE s[Len(s) - 1]
Pending(s) == Under(s).k \in {"bin", "pre"}
\* 2 inside the lower bound of a BETWEEN, 1 elsewhere
RECURSIVE Kind(_, _)
Kind(s, n) == IF n = 0 THEN 1 ELSE IF s[n].k = "btw" THEN 2 ELSE IF s[n].k = "par" THEN 1 ELSE Kind(s, n - 1)
InB(s) == Kind(s, Len(s)) = 2

\* apply the operator under the value on top: <<stack, event>>
Apply(s) ==
    LET n == Len(s)   r == s[n]   o == s[n - 1]
        l == IF o.k = "pre" THEN o.a ELSE s[n - 2].a
        below == SubSeq(s, 1, IF o.k = "pre" THEN n - 2 ELSE n - 3)
    IN <<Append(below, Val(l, r.b)), <<Kind(s, n), l, r.b>>>>
\* apply pending operators until the next one of level lev (or higher) is to be shifted:
\* <<stack, events, "shift" or "error">>
RECURSIVE Climb(_, _, _)
Climb(s, lev, ev) ==
    IF ~Pending(s) \/ Under(s).lev < lev THEN <<s, ev, "shift">>
    ELSE IF Under(s).lev = lev /\ Under(s).assoc = "non" THEN <<s, ev, "error">>
    ELSE IF Under(s).lev = lev /\ Under(s).assoc = "right" THEN <<s, ev, "shift">>
    ELSE LET r == Apply(s) IN Climb(r[1], lev, Append(ev, r[2]))
RECURSIVE ApplyAll(_, _)
ApplyAll(s, ev) == IF ~Pending(s) THEN <<s, ev>> ELSE LET r == Apply(s) IN ApplyAll(r[1], Append(ev, r[2]))
\* apply until the operator under the top is a LIKE that has no ESCAPE yet
RECURSIVE ToLike(_, _)
ToLike(s, ev) == IF ~Pending(s) THEN <<s, ev, "error">> ELSE IF Under(s).like THEN <<s, ev, "shift">>
                 ELSE LET r == Apply(s) IN ToLike(r[1], Append(ev, r[2]))

Fail(w, want, got) == PrintT(<<"MISMATCH", t, i, w, want, got>>) /\ v' = "bad" /\ UNCHANGED <<t, i, pos, st, e>>
Good == v' = "ok" /\ UNCHANGED <<t, i, pos, st, e>>
Seen(d, ev) == SubSeq(d.ev, e + 1, IF e + Len(ev) < Len(d.ev) THEN e + Len(ev) ELSE Len(d.ev))
\* the input is rejected at the current item; exact: at its first token
Reject(d, exact) ==
    IF d.r = "syn" /\ (IF exact THEN d.s = pos ELSE d.s >= pos) THEN Good ELSE Fail("rejected", pos, <<d.r, d.s>>)
Step(d, s, ev) ==
    IF d.r = "ok" /\ Seen(d, ev) # ev THEN Fail("grouping", ev, Seen(d, ev))
    ELSE IF d.r # "ok" /\ ~(d.r = "syn" /\ d.s > pos) THEN Fail("accepted", pos, <<d.r, d.s>>)
    ELSE /\ st' = s /\ e' = e + Len(ev) /\ i' = i + 1 /\ pos' = pos + d.items[i][2]
         /\ UNCHANGED <<t, v>>
Operand(d, n, w) ==
    IF n = "atom" THEN Step(d, Append(st, Val(pos, pos + w - 1)), <<>>)
    ELSE IF n = "(" THEN Step(d, Append(st, Ent("par", pos, 0, 0, "", FALSE)), <<>>)
    ELSE IF n \in DOMAIN Prefix
    THEN IF InB(st) /\ ~Prefix[n][3] THEN Reject(d, FALSE)
         ELSE Step(d, Append(st, Ent("pre", pos, 0, Prefix[n][1], Prefix[n][2], FALSE)), <<>>)
    ELSE Reject(d, FALSE)
Operator(d, n, w) ==
    IF n = ")"
    THEN LET r == ApplyAll(st, <<>>) IN
         IF Under(r[1]).k # "par" THEN Reject(d, FALSE)
         ELSE Step(d, Append(SubSeq(r[1], 1, Len(r[1]) - 2), Val(Under(r[1]).a, pos)), r[2])
    ELSE IF n = "and" /\ InB(st)
    THEN LET r == ApplyAll(st, <<>>) IN       \* the lower bound ends; the operator now waits for the upper one
         Step(d, Append(SubSeq(r[1], 1, Len(r[1]) - 2), Ent("bin", 0, 0, BetweenLevel, "non", FALSE)), r[2])
    ELSE IF InB(st) /\ ~(IF n \in DOMAIN Infix THEN Infix[n][3] ELSE IF n \in DOMAIN Postfix THEN Postfix[n][2] ELSE FALSE)
    THEN Reject(d, FALSE)
    ELSE IF n = "escape"
    THEN LET r == ToLike(st, <<>>) IN
         IF r[3] = "error" THEN Reject(d, TRUE)
         ELSE \* a LIKE b ESCAPE . : the operator goes on; b is within
              Step(d, Append(SubSeq(r[1], 1, Len(r[1]) - 2), Ent("bin", 0, 0, Under(r[1]).lev, "non", FALSE)), r[2])
    ELSE IF n \in DOMAIN Infix
    THEN LET r == Climb(st, Infix[n][1], <<>>) IN
         IF r[3] = "error" THEN Reject(d, TRUE)
         ELSE Step(d, Append(r[1], Ent("bin", 0, 0, Infix[n][1], Infix[n][2], n \in Likes)), r[2])
    ELSE IF n \in DOMAIN Postfix
    THEN LET r == Climb(st, Postfix[n][1], <<>>) IN
         IF r[3] = "error" THEN Reject(d, TRUE)
         ELSE LET s == r[1]   x == s[Len(s)]
                  ev == <<Kind(s, Len(s)), x.a, pos + w - 1>>
              IN Step(d, [s EXCEPT ![Len(s)] = Val(x.a, pos + w - 1)], Append(r[2], ev))
    ELSE IF n \in Between
    THEN LET r == Climb(st, BetweenLevel, <<>>) IN
         IF r[3] = "error" THEN Reject(d, TRUE)
         ELSE Step(d, Append(r[1], Ent("btw", pos, 0, 0, "", FALSE)), r[2])
    ELSE Reject(d, FALSE)
Finish(d) ==
    LET r == ApplyAll(st, <<>>) IN
    IF ~IsVal(st) \/ Len(r[1]) # 1 THEN Reject(d, FALSE)
    ELSE IF d.r # "ok" THEN Fail("accepted", "ok", <<d.r, d.s>>)
    ELSE IF Seen(d, r[2]) # r[2] \/ e + Len(r[2]) # Len(d.ev) THEN Fail("grouping", r[2], SubSeq(d.ev, e + 1, Len(d.ev)))
    ELSE Good
Move(d) == IF i > Len(d.items) THEN Finish(d)
           ELSE IF IsVal(st) THEN Operator(d, d.items[i][1], d.items[i][2]) ELSE Operand(d, d.items[i][1], d.items[i][2])
Next == \/ v = "run" /\ Move(Data[t])
        \/ v # "run" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
