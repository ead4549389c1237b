------------------------------ MODULE Certify -------------------------------
(***************************************************************************)
(* Why the LR machine neither gets stuck nor runs for ever, whatever the   *)
(* tokens: decided on the committed tables, as the parser looks them up.   *)
(* The stack is abstract: only its top part is known, what lies below is   *)
(* any path of the automaton.                                              *)
(*                                                                         *)
(* "pop": a reduction is under way.  The machine takes one state after the *)
(*   other off the stack; which one lies below is any predecessor.  It     *)
(*   must not reach the bottom too early, and where it ends there must be  *)
(*   a goto.  All reductions of all states are started.                    *)
(*                                                                         *)
(* "run": the machine reduces, with one look-ahead, as long as it does not *)
(*   touch the lowest state of the known part.  Such a run must be short.  *)
(*   Were there a behaviour that reduces for ever, let h be the least      *)
(*   height its stack has again and again.  From some moment on the state  *)
(*   below h is never touched, and the one at h is the goto of a           *)
(*   reduction: both are one of the starts <<p, goto(p, x)>>.  Or the      *)
(*   heights grow beyond all bounds; then some state is never touched      *)
(*   again while the machine goes on above it: one of the starts <<q>>.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
ASSUME TLCSet(1, TLCEval(JsonDeserialize(IOEnv.TRACE)))
In == TLCGet(1)
\* states and symbols count from 0 in the tables, tuples from 1
Act(q, a) == In.rows[In.rowof[q + 1]][a]
Go(q, x) == In.gos[In.goof[q + 1]][x + 1]
\* predecessors, read off the tables
Succ(p) == {v - 1 : v \in {w \in {Act(p, a) : a \in 1 .. In.t} : w > 0 /\ w < 32766}} \cup {g \in {Go(p, x) : x \in 0 .. In.x - 1} : g >= 0}
ASSUME TLCSet(2, TLCEval([q \in 1 .. Len(In.pred) |-> {In.pred[q][i] : i \in DOMAIN In.pred[q]}]))
Pred(q) == TLCGet(2)[q + 1]
Lhs(r) == In.rules[r][1]
Len0(r) == In.rules[r][2]
Limit == In.limit

VARIABLES mode, rule, left, stack, look
vars == <<mode, rule, left, stack, look>>

Top == stack[Len(stack)]
Reduces(v) == v < 0 /\ v > -30000
\* the machine goes on above the state the run started on
Inside(v) == Reduces(v) /\ Len0(-v) < Len(stack)

Init ==
  \/ /\ mode = "pop" /\ look = 0 /\ In.pred # <<>>
     /\ \E q \in 0 .. In.n - 1 : \E v \in {Act(q, a) : a \in 1 .. In.t} :
          Reduces(v) /\ rule = -v /\ left = Len0(-v) /\ stack = <<q>>
  \/ /\ mode = "run" /\ rule = 0 /\ left = 0
     /\ \E i \in DOMAIN In.starts : \E a \in {b \in 1 .. In.t : b % In.every = In.from % In.every} :
          look = a /\ stack = In.starts[i] /\ Inside(Act(Top, a))

Pop == /\ mode = "pop" /\ left > 0
       /\ \E p \in Pred(Top) : stack' = <<p>>
       /\ left' = left - 1
       /\ UNCHANGED <<mode, rule, look>>
Run == /\ mode = "run" /\ left < In.limit
       /\ LET v == Act(Top, look)
          IN /\ Inside(v)
             /\ LET below == SubSeq(stack, 1, Len(stack) - Len0(-v))
                    g == Go(below[Len(below)], Lhs(-v))
                IN g >= 0 /\ stack' = Append(below, g)
       /\ left' = left + 1
       /\ UNCHANGED <<mode, rule, look>>
Next == Pop \/ Run
Spec == Init /\ [][Next]_vars

\* every production there is, every state there is
InTables == \A q \in 0 .. In.n - 1 : \A v \in {Act(q, a) : a \in 1 .. In.t} :
              /\ Reduces(v) => -v \in DOMAIN In.rules
              /\ v > 0 /\ v < 32766 => v - 1 < In.n
PredRight == \A p \in 0 .. In.n - 1 : \A q \in Succ(p) : p \in Pred(q)
ASSUME InTables
ASSUME In.pred = <<>> \/ PredRight
\* the stack is deep enough, and has where to go on
NotStuck == /\ mode = "pop" /\ left > 0 => Pred(Top) # {}
            /\ mode = "pop" /\ left = 0 => Go(Top, Lhs(rule)) \in 0 .. In.n - 1
            /\ mode = "run" /\ Inside(Act(Top, look)) =>
                 LET v == Act(Top, look) IN Go(stack[Len(stack) - Len0(-v)], Lhs(-v)) \in 0 .. In.n - 1
Ends == mode = "run" => left < In.limit
=============================================================================
