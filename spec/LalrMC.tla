------------------------------- MODULE LalrMC -------------------------------
(***************************************************************************)
(* Product of the LALR(1) automaton of a grammar (Lalr) with the tables    *)
(* the generator wrote for it, as the parser looks them up.  From the two  *)
(* start states, over every symbol: same action for every terminal, same   *)
(* move for every non-terminal.  So the two act alike on every token       *)
(* string.                                                                 *)
(*                                                                         *)
(* Units[u]: g the grammar; real the tables (act[s][a], go[s][x], arities  *)
(* and left-hand sides in lhs, len), already by the grammar's symbol       *)
(* numbers; strs the token strings that were parsed, with the outcome.     *)
(***************************************************************************)
EXTENDS Lalr, Json, IOUtils

Units == JsonDeserialize(IOEnv.TRACE)
ASSUME TLCSet(1, TLCEval([k \in DOMAIN Units |-> Automaton(Units[k].g)]))
A == TLCGet(1)
ASSUME TLCSet(2, Units)
U == TLCGet(2)
Looked(k) == U[k].real.n > 0          \* the tables could be looked up

VARIABLES u, q, s, path
vars == <<u, q, s, path>>
View == <<u, q, s>>

Usable(k) == \A p \in 1..A[k].n : \A a \in 1..U[k].g.nt : A[k].act[p][a] # Clash

\* real codes: v > 0 shift to v - 1, v < 0 reduce by rule -v, 0 accept, 32767 error
RealAct(a) == U[u].real.act[s + 1][a]
Same(a) ==
  LET w == A[u].act[q][a]
      v == RealAct(a)
  IN CASE w = Acc -> v = 0
       [] w = 0 -> v = 32767
       [] w > 0 -> v > 0 /\ v # 32767
       [] OTHER -> v = w
NT(k) == {x \in DOMAIN A[k].go[1] : x > U[k].g.nt}
SameGo(x) == LET v == U[u].real.go[s + 1][x - U[u].g.nt] IN (A[u].go[q][x] = 0) <=> (v < 0)
Agreed == /\ \A a \in 1..U[u].g.nt : Same(a)
          /\ \A x \in NT(u) : SameGo(x)
          /\ \A a \in DOMAIN U[u].real.other : U[u].real.other[a][s + 1] = 32767

Init == u \in {k \in DOMAIN Units : Looked(k) /\ Usable(k)} /\ q = 1 /\ s = 0 /\ path = <<>>
Next ==
  /\ Agreed
  /\ \/ \E a \in 1..U[u].g.nt : A[u].act[q][a] \notin {0, Acc} /\ A[u].act[q][a] > 0
          /\ q' = A[u].act[q][a] /\ s' = RealAct(a) - 1 /\ path' = Append(path, a)
     \/ \E x \in NT(u) : A[u].go[q][x] # 0
          /\ q' = A[u].go[q][x] /\ s' = U[u].real.go[s + 1][x - U[u].g.nt] /\ path' = Append(path, x)
  /\ u' = u
Spec == Init /\ [][Next]_vars

Report == Agreed \/ PrintT(<<"BAD", u, path,
            {<<a, A[u].act[q][a], RealAct(a)>> : a \in {b \in 1..U[u].g.nt : ~Same(b)}},
            {<<x, A[u].go[q][x], U[u].real.go[s + 1][x - U[u].g.nt]>> : x \in {y \in NT(u) : ~SameGo(y)}}>>)

(* ---- the productions as the parser applies them ---- *)
Productions == \A k \in DOMAIN Units : Looked(k) =>
  \/ /\ Len(U[k].real.lhs) = Len(U[k].g.rules)
     /\ \A r \in DOMAIN U[k].g.rules : U[k].real.lhs[r] = U[k].g.rules[r].lhs /\ U[k].real.len[r] = Len(U[k].g.rules[r].rhs)
  \/ PrintT(<<"RULES", k, U[k].real.lhs, U[k].real.len>>)
ASSUME Productions

(* ---- whole parses ---- *)
(* Result: <<1, steps>> with the derivation in post-order (1, token for a   *)
(* token, 2, lhs, arity for a production) or <<0, index of the token>>.     *)
RECURSIVE Run(_, _, _, _, _)
Run(k, w, i, st, out) ==
  LET a == IF i > Len(w) THEN U[k].g.end ELSE w[i]
      v == A[k].act[st[Len(st)]][a]
  IN CASE v = Acc -> <<1, out>>
       [] v = 0 -> <<0, <<i>>>>
       [] v > 0 -> Run(k, w, i + 1, Append(st, v), out \o <<1, a>>)
       [] OTHER -> LET r == U[k].g.rules[-v]
                       b == SubSeq(st, 1, Len(st) - Len(r.rhs))
                   IN Run(k, w, i, Append(b, A[k].go[b[Len(b)]][r.lhs]), out \o <<2, r.lhs, Len(r.rhs)>>)

Parses == \A k \in DOMAIN Units : Usable(k) => \A j \in DOMAIN U[k].strs :
  LET want == Run(k, U[k].strs[j].w, 1, <<1>>, <<>>)
  IN want = U[k].strs[j].r \/ PrintT(<<"PARSE", k, j, U[k].strs[j].r, want>>)
ASSUME Parses
ASSUME \A k \in DOMAIN Units : Usable(k) \/ PrintT(<<"CLASH", k>>)
ASSUME \A k \in DOMAIN Units : PrintT(<<"SIZE", k, A[k].n>>)
=============================================================================
