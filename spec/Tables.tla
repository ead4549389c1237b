------------------------------- MODULE Tables --------------------------------
(***************************************************************************)
(* The LALR(1) automaton of the pinned grammar (gram.y), built from the    *)
(* grammar by tools/lalr.py -- whose construction LALR.tla specifies.      *)
(* States and symbols are numbered from 1.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Tab == JsonDeserialize(IOEnv.TABLES)
NT  == Tab.nterm                      \* terminals are 1..NT, the last one is $end
EndSym == NT
Sym == Tab.sym                        \* numbers of the symbols the filter mentions
\* symbols outside the grammar
WS == -1   CComment == -2   LComment == -3   Root == -4   UIdent == -5   USConst == -6

Accept == 1000000
\* 0 is an error, a positive number a shift to that state, a negative one a reduction
Action(s, a) == IF a \in 1..NT THEN Tab.rows[Tab.rowof[s]][a] ELSE 0
GotoState(s, n) == Tab.gotos[Tab.gotoof[s]][n - NT]
Lhs(r) == Tab.rules[r][1]
Arity(r) == Tab.rules[r][2]
=============================================================================
