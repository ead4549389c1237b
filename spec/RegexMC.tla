------------------------------ MODULE RegexMC ------------------------------
(***************************************************************************)
(* Product of the leftmost-first meaning of each rule of the regex engine  *)
(* with the meaning of the flex pattern it stands for, over all strings:   *)
(* in the middle and at the end of the input, the regex must have a match  *)
(* that ends here exactly if the pattern has one.  Then both engines find  *)
(* the same lengths for every rule, hence choose the same rule.            *)
(***************************************************************************)
EXTENDS Regex, Json, IOUtils

Units == JsonDeserialize(IOEnv.TRACE)

ASSUME TLCSet(1, TLCEval([u \in DOMAIN Units |-> Condition(Units[u].defs, <<[id |-> 0, text |-> Units[u].pat]>>)]))
C == TLCGet(1)
ASSUME TLCSet(2, TLCEval([u \in DOMAIN Units |-> IF OneTop(Units[u].regex) THEN ReadRegex(Units[u].regex) ELSE Bad]))
Node == TLCGet(2)
Readable == {u \in DOMAIN Units : Node[u].k # "bad"}
ASSUME \A u \in DOMAIN Units : u \in Readable \/ PrintT(<<"UNREAD", u>>)

RECURSIVE Sets(_)
Sets(x) == CASE x.k = "set" -> {x.s}
             [] x.k \in {"cat", "alt"} -> Sets(x.a) \cup Sets(x.b)
             [] x.k = "star" -> Sets(x.a)
             [] OTHER -> {}

\* Bytes that neither side can tell apart are represented by one of them.
ASSUME TLCSet(3, TLCEval([u \in DOMAIN Units |->
  LET all == TLCEval(Sets(Node[u]) \cup {C[u].se[p] : p \in 1..C[u].n})
      sig == TLCEval([b \in 1..255 |-> {s \in all : b \in s}])
  IN {CHOOSE b \in 1..255 : sig[b] = s : s \in {sig[b] : b \in 1..255}}]))
Reps == TLCGet(3)

VARIABLES u, L, P, path
vars == <<u, L, P, path>>
View == <<u, L, P>>

Init == u \in Readable /\ L = <<<<Node[u]>>>> /\ P = {0} /\ path = <<>>

Start == path = <<>>
Here == Matched(C[u], P) = 0
AtEnd == Here \/ Matched(C[u], Step(C[u], P, 0)) = 0

Agreed == Threads(L, Start, FALSE).m = Here /\ Threads(L, Start, TRUE).m = AtEnd

Next ==
  /\ Agreed
  /\ \E b \in Reps[u] :
       /\ L' = Moved(Threads(L, Start, FALSE).l, b, 1)
       /\ P' = Step(C[u], P, b)
       /\ L' # <<>> \/ P' # {}
       /\ path' = Append(path, b)
       /\ u' = u

Spec == Init /\ [][Next]_vars

Report == Agreed \/ PrintT(<<"BAD", u, Here, AtEnd, path>>)

\* the flag of a rule for the end of the input
ASSUME \A i \in DOMAIN Units : Units[i].eof = (Matched(C[i], Step(C[i], {0}, 0)) = 0) \/ PrintT(<<"EOF", i>>)
=============================================================================
