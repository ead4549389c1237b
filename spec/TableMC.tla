------------------------------ MODULE TableMC -------------------------------
(***************************************************************************)
(* The committed tables, as the parser looks them up, against the          *)
(* automaton of the pinned grammar (Tables).  Input.map renames the states *)
(* of the automaton to those of the tables; it is a witness: that it       *)
(* starts at the start state and commutes with every shift and every goto  *)
(* is what is checked here, state by state, with the action for every      *)
(* terminal.  So the two act alike on every token string.                  *)
(*                                                                         *)
(* Input.rules are the tables' productions, <<left-hand side, length>>:    *)
(* two that agree in both cannot be told apart, whatever their numbers.    *)
(*                                                                         *)
(* Input.part[u]: a state q, and the rows of its image: act by terminal,   *)
(* go by non-terminal, other for the terminals the grammar does not use.   *)
(***************************************************************************)
EXTENDS Tables
ASSUME TLCSet(1, TLCEval(JsonDeserialize(IOEnv.TRACE)))
Input == TLCGet(1)
VARIABLES u, bad
vars == <<u, bad>>
Map(q) == Input.map[q]
NonTerms == NT + 1 .. NT + Len(Input.part[1].go)

ActOk(q, a, v) ==
  LET w == Action(q, a)
  IN CASE w = Accept -> v = 0
       [] w = 0 -> v = 32767
       [] w > 0 -> v = Map(w) + 1
       [] OTHER -> -v \in DOMAIN Input.rules /\ Input.rules[-v] = <<Lhs(-w), Arity(-w)>>
GoOk(q, x, v) == LET w == GotoState(q, x) IN IF w = 0 THEN v = -1 ELSE v = Map(w)
Bad(p) ==
  <<{a \in 1..NT : ~ActOk(p.q, a, p.act[a])},
    {x \in NonTerms : ~GoOk(p.q, x, p.go[x - NT])},
    {k \in DOMAIN p.other : p.other[k] # 32767}>>
None == <<{}, {}, {}>>

Init == u = 1 /\ bad = None
Next == /\ u <= Len(Input.part)
        /\ bad' = Bad(Input.part[u])
        /\ IF bad' = None THEN TRUE ELSE PrintT(<<"BAD", Input.part[u].q, bad'>>)
        /\ u' = u + 1
Spec == Init /\ [][Next]_vars

ASSUME Map(1) = 0
=============================================================================
