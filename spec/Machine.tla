------------------------------- MODULE Machine -------------------------------
(***************************************************************************)
(* The parser: a stack machine over Tables that builds the syntax tree.    *)
(*                                                                         *)
(* The tree is described by its postorder: a leaf is <<symbol, start,      *)
(* end>>, an inner node <<symbol, number of children>>.  Reading the       *)
(* machine's moves in order gives that list: a shift appends the pending   *)
(* trivia and the token's leaf, a reduction its node.                      *)
(*                                                                         *)
(* An entry of the stack is [st, full, ahead, gap]: the state, whether the *)
(* entry has text, and how much trivia stands in front of it in its        *)
(* parent: `ahead` leaves up to the last comment, then `gap` (0 or 1)      *)
(* leaves of white space.  A node takes over the trivia in front of its    *)
(* first child; but if it begins with an elided part, it starts where that *)
(* part stood -- right after the previous token or comment -- and so the   *)
(* white space belongs to its inside.                                      *)
(***************************************************************************)
EXTENDS Filter

Entry(s, full, ahead, gap) == [st |-> s, full |-> full, ahead |-> ahead, gap |-> gap]
Bottom == <<Entry(1, FALSE, 0, 0)>>
Top(st) == st[Len(st)].st

\* children of a node made from entries c[i..]: elided ones do not count,
\* trivia in front of all but the first one does
RECURSIVE Children(_, _, _)
Children(c, i, first) ==
    IF i > Len(c) THEN 0
    ELSE IF ~c[i].full THEN Children(c, i + 1, first)
    ELSE 1 + (IF first THEN IF i > 1 THEN c[i].gap ELSE 0
              ELSE c[i].ahead + c[i].gap)
           + Children(c, i + 1, FALSE)
FirstFull(c) == IF \E i \in 1..Len(c) : c[i].full
                THEN CHOOSE i \in 1..Len(c) : c[i].full /\ \A j \in 1..(i - 1) : ~c[j].full
                ELSE 0

\* keep = TRUE: elided nodes are in the tree too; trivia = FALSE: trivia is not counted
Node(r, c, keep, trivia) ==
    IF keep THEN <<Lhs(r), Len(c)>>
    ELSE <<Lhs(r), IF trivia THEN Children(c, 1, TRUE) ELSE Cardinality({i \in 1..Len(c) : c[i].full})>>

\* all reductions on look-ahead a: <<stack, action that ends them, nodes made>>
RECURSIVE Reduce(_, _, _, _, _)
Reduce(st, a, made, keep, trivia) ==
    LET act == Action(Top(st), a) IN
    IF act >= 0 THEN <<st, act, made>>
    ELSE LET r == -act
             n == Len(st) - Arity(r)
             c == SubSeq(st, n + 1, Len(st))
             below == SubSeq(st, 1, n)
             f == FirstFull(c)
             s == GotoState(Top(below), Lhs(r))
             e == IF f = 0 THEN Entry(s, FALSE, 0, 0)
                  ELSE Entry(s, TRUE, c[f].ahead, IF f = 1 THEN c[f].gap ELSE 0)
         IN Reduce(Append(below, e), a,
                   IF keep \/ f # 0 THEN Append(made, Node(r, c, keep, trivia)) ELSE made, keep, trivia)

\* the stack after shifting into state s with the trivia tr in front
Shift(st, s, tr) ==
    LET w == IF Len(tr) > 0 /\ tr[Len(tr)][1] = WS THEN 1 ELSE 0
    IN Append(st, Entry(s, TRUE, Len(tr) - w, w))
=============================================================================
