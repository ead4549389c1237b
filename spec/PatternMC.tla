----------------------------- MODULE PatternMC -----------------------------
(***************************************************************************)
(* Product of the meaning of a pattern list (Pattern) with the automaton   *)
(* that the real pattern compiler built for it, explored over all byte     *)
(* strings: after every string both must report the same first pattern.    *)
(* Bytes that neither side can tell apart are represented by one of them.  *)
(***************************************************************************)
EXTENDS Pattern, TLC, Json, IOUtils

Units == JsonDeserialize(IOEnv.TRACE)
Compiled == TLCEval([u \in DOMAIN Units |-> Condition(Units[u].defs, Units[u].pats)])

\* Compiled once, kept in a register (TLC would work them out again for every state).
ASSUME TLCSet(1, Compiled)
C == TLCGet(1)

Bytes == TLCEval([u \in DOMAIN Units |->
  LET sig == TLCEval([b \in 0..255 |-> <<Units[u].cls[b + 1], {p \in 1..C[u].n : b \in C[u].se[p]}>>])
  IN {CHOOSE b \in 0..255 : sig[b] = s : s \in {sig[b] : b \in 0..255}}])

ASSUME TLCSet(2, Bytes)
Reps == TLCGet(2)

VARIABLES u, q, P, path
vars == <<u, q, P, path>>
View == <<u, q, P>>

Init == u \in DOMAIN Units /\ q = 0 /\ P = {0} /\ path = <<>>

Reported == IF q = -1 THEN -1 ELSE Units[u].acc[q + 1]
Agreed == Reported = Matched(C[u], P)

Next ==
  /\ Agreed
  /\ \E b \in Reps[u] :
       /\ q' = (IF q = -1 THEN -1 ELSE Units[u].next[q + 1][Units[u].cls[b + 1] + 1])
       /\ P' = Step(C[u], P, b)
       /\ q' # -1 \/ P' # {}
       /\ path' = Append(path, b)
       /\ u' = u

Spec == Init /\ [][Next]_vars

(* Never stops the search: every disagreement is reported with a shortest string. *)
Report == Agreed \/ PrintT(<<"BAD", u, Reported, Matched(C[u], P), path>>)

(* The verdict on whole strings: the longest prefix some pattern matches, the *)
(* end of the input counting as one more symbol.                              *)
RECURSIVE Longest(_, _, _, _, _)
Longest(c, s, i, S, best) ==
  LET m == Matched(c, S)
      now == IF m # -1 THEN m ELSE best
  IN IF i > Len(s) \/ S = {} THEN now ELSE Longest(c, s, i + 1, Step(c, S, s[i]), now)

Verdicts == \A k \in DOMAIN Units : \A i \in DOMAIN Units[k].strs :
  LET want == Longest(C[k], Append(Units[k].strs[i], 0), 1, {0}, -1)
  IN want = Units[k].ver[i] \/ PrintT(<<"VERDICT", k, Units[k].ver[i], want, Units[k].strs[i]>>)
ASSUME Verdicts
=============================================================================
