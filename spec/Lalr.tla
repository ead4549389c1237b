-------------------------------- MODULE Lalr --------------------------------
(***************************************************************************)
(* The LALR(1) automaton of a grammar under yacc's rules, by definition:   *)
(* the LR(0) automaton, the least look-aheads propagated through it, and   *)
(* the resolution of shift/reduce conflicts by precedence.                 *)
(*                                                                         *)
(* G.rules[r] = [lhs, rhs, prec]: symbols are numbers, terminals 1..G.nt,  *)
(* with G.end the end of the input; G.level[a], G.assoc[a] ("", "left",    *)
(* "right", "nonassoc") for each terminal a, level 0 for none.  A rule's   *)
(* prec is the terminal it takes its precedence from, 0 for none.  Rule 0  *)
(* is  $accept -> start.  An item is rule * 100 + position of the dot.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Acc == 1000000
Clash == 2000000

Rhs(G, r) == IF r = 0 THEN <<G.start>> ELSE G.rules[r].rhs
IsT(G, x) == x <= G.nt
RulesOf(G, x) == {r \in DOMAIN G.rules : G.rules[r].lhs = x}
ItRule(i) == i \div 100
ItDot(i) == i % 100
NextSym(G, i) == LET w == Rhs(G, ItRule(i)) IN IF ItDot(i) < Len(w) THEN w[ItDot(i) + 1] ELSE 0
NTs(G) == {G.rules[r].lhs : r \in DOMAIN G.rules}

(* ---- nullable and first ---- *)
RECURSIVE NullFix(_, _)
NullFix(G, N) ==
  LET M == N \cup {G.rules[r].lhs : r \in {q \in DOMAIN G.rules : \A k \in DOMAIN G.rules[q].rhs : G.rules[q].rhs[k] \in N}}
  IN IF M = N THEN N ELSE NullFix(G, M)
Nullable(G) == NullFix(G, {})

\* first terminals of w from position k on
RECURSIVE FirstSeq(_, _, _, _, _)
FirstSeq(G, N, F, w, k) ==
  IF k > Len(w) THEN {}
  ELSE IF IsT(G, w[k]) THEN {w[k]}
  ELSE F[w[k]] \cup (IF w[k] \in N THEN FirstSeq(G, N, F, w, k + 1) ELSE {})
NullSeq(N, w, k) == \A j \in k..Len(w) : w[j] \in N

RECURSIVE FirstFix(_, _, _)
FirstFix(G, N, F) ==
  LET H == TLCEval([x \in NTs(G) |-> UNION {FirstSeq(G, N, F, G.rules[r].rhs, 1) : r \in RulesOf(G, x)}])
  IN IF H = F THEN F ELSE FirstFix(G, N, H)

(* ---- LR(0) ---- *)
RECURSIVE Closure0(_, _)
Closure0(G, I) ==
  LET new == UNION {{r * 100 : r \in RulesOf(G, NextSym(G, i))} : i \in {j \in I : NextSym(G, j) > G.nt}}
  IN IF new \subseteq I THEN I ELSE Closure0(G, I \cup new)
Moves(G, C) == {NextSym(G, i) : i \in C} \ {0}
Goto0(G, C, x) == {i + 1 : i \in {j \in C : NextSym(G, j) = x}}

RECURSIVE Kernels(_, _, _)
Kernels(G, seen, todo) ==
  IF todo = {} THEN seen
  ELSE LET new == UNION {LET C == Closure0(G, K) IN {Goto0(G, C, x) : x \in Moves(G, C)} : K \in todo}
       IN Kernels(G, seen \cup todo, TLCEval(new \ (seen \cup todo)))

(* ---- look-aheads ---- *)
\* in a state with kernel K and kernel look-aheads L: what may follow each non-terminal closed over
RECURSIVE FollowFix(_, _, _, _, _, _)
FollowFix(G, N, F, C, L, W) ==
  LET la(i) == IF i \in DOMAIN L THEN L[i] ELSE W[G.rules[ItRule(i)].lhs]
      H == TLCEval([x \in NTs(G) |->
              UNION {LET w == Rhs(G, ItRule(i))
                         k == ItDot(i) + 2
                     IN FirstSeq(G, N, F, w, k) \cup (IF NullSeq(N, w, k) THEN la(i) ELSE {})
                     : i \in {j \in C : NextSym(G, j) = x}}])
  IN IF H = W THEN W ELSE FollowFix(G, N, F, C, L, H)

NoFollow(G) == [x \in NTs(G) |-> {}]
LaOf(G, L, W, i) == IF i \in DOMAIN L THEN L[i] ELSE W[G.rules[ItRule(i)].lhs]

\* P: the states as a sequence of [k, c, go], go[x] the number of the next state
RECURSIVE LaFix(_, _, _, _, _)
LaFix(G, N, F, P, S) ==
  LET W == TLCEval([q \in DOMAIN P |-> FollowFix(G, N, F, P[q].c, S[q], NoFollow(G))])
      into(q, i) == \* look-aheads of kernel item i of state q, from every state that moves here
        UNION {LaOf(G, S[p], W[p], i - 1) :
               p \in {o \in DOMAIN P : (i - 1) \in P[o].c /\ P[o].go[NextSym(G, i - 1)] = q}}
      H == TLCEval([q \in DOMAIN P |->
             [i \in P[q].k |-> IF i = 0 THEN {G.end} ELSE into(q, i)]])
  IN IF H = S THEN [s |-> S, w |-> W] ELSE LaFix(G, N, F, P, H)

(* ---- conflicts ---- *)
RulePrec(G, r) == IF r = 0 \/ G.rules[r].prec = 0 THEN 0 ELSE G.level[G.rules[r].prec]
Resolve(G, r, a, shift) ==
  LET p == RulePrec(G, r)
      q == G.level[a]
  IN IF p = 0 \/ q = 0 \/ p < q THEN shift
     ELSE IF p > q THEN -r
     ELSE CASE G.assoc[a] = "left" -> -r [] G.assoc[a] = "right" -> shift [] OTHER -> 0

(* The automaton: go[q][x] the next state (0: none); act[q][a] a state to   *)
(* shift to, -r to reduce by rule r, Acc, 0 for an error, Clash when two    *)
(* reductions compete.                                                      *)
Automaton(G) ==
  LET N == TLCEval(Nullable(G))
      F == TLCEval(FirstFix(G, N, [x \in NTs(G) |-> {}]))
      all == TLCEval(Kernels(G, {}, {{0}}))
      ks == TLCEval(<<{0}>> \o SetToSeq(all \ {{0}}))
      num(K) == CHOOSE q \in DOMAIN ks : ks[q] = K
      syms == (1..G.nt) \cup NTs(G)
      P == TLCEval([q \in DOMAIN ks |->
             LET C == Closure0(G, ks[q])
             IN [k |-> ks[q], c |-> C,
                 go |-> [x \in syms |-> IF x \in Moves(G, C) THEN num(Goto0(G, C, x)) ELSE 0]]])
      LA == TLCEval(LaFix(G, N, F, P, [q \in DOMAIN ks |-> [i \in ks[q] |-> IF i = 0 THEN {G.end} ELSE {}]]))
      reds(q, a) == {ItRule(i) : i \in {j \in P[q].c : NextSym(G, j) = 0 /\ a \in LaOf(G, LA.s[q], LA.w[q], j)}}
      act(q, a) == LET R == reds(q, a)
                       s == P[q].go[a]
                   IN IF R = {} THEN s
                      ELSE IF Cardinality(R) > 1 THEN Clash
                      ELSE LET r == CHOOSE r \in R : TRUE
                           IN IF r = 0 THEN Acc
                              ELSE IF s = 0 THEN -r ELSE Resolve(G, r, a, s)
  IN TLCEval([n |-> Len(ks), go |-> [q \in DOMAIN ks |-> P[q].go],
      act |-> [q \in DOMAIN ks |-> [a \in 1..G.nt |-> act(q, a)]]])
=============================================================================
