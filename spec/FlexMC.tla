------------------------------- MODULE FlexMC -------------------------------
(***************************************************************************)
(* Scanners generated from flex files (FlexFile, Pattern), run on strings. *)
(* The scanner of a file: in the current start condition, the rule that    *)
(* matches the longest prefix of the rest of the input, the first of those *)
(* in the file; the end of the input counts as one more symbol.  An action *)
(* carries a mark  @n@state@ : the token it returns, if any, and the start *)
(* condition it begins, if any.                                            *)
(*                                                                         *)
(* Units[k]: the file, and strings with the tokens the generated scanner   *)
(* returned, as number, start, end.                                        *)
(***************************************************************************)
EXTENDS FlexFile, Pattern, Json, IOUtils

Units == JsonDeserialize(IOEnv.TRACE)
ASSUME TLCSet(1, TLCEval([k \in DOMAIN Units |-> FlexFile(Units[k].text)]))
F == TLCGet(1)
InState(f, s) == SelectSeq([k \in DOMAIN f.rules |-> [id |-> k, text |-> f.rules[k].pat, st |-> f.rules[k].states]],
                           LAMBDA r : \E j \in DOMAIN r.st : r.st[j] = s)
ASSUME TLCSet(2, TLCEval([k \in DOMAIN Units |->
                   [j \in DOMAIN F[k].states |-> LET R == TLCEval(InState(F[k], F[k].states[j])) IN TLCEval(Condition(F[k].defs, R))]]))
C == TLCGet(2)

RECURSIVE FindMark(_, _)
FindMark(a, i) == IF i > Len(a) \/ a[i] = 64 THEN i ELSE FindMark(a, i + 1)
\* <<token or 0, state or <<>> >>
MarkOf(a) ==
  LET p == FindMark(a, 1)
      n == TLCEval(Number(a, p + 1, 0))
      e == FindMark(a, n[2] + 1)
  IN IF p > Len(a) THEN <<0, <<>>>> ELSE <<n[1], SubSeq(a, n[2] + 1, e - 1)>>
ASSUME TLCSet(3, TLCEval([k \in DOMAIN Units |-> [r \in DOMAIN F[k].rules |-> MarkOf(F[k].rules[r].act)]]))
Mark == TLCGet(3)

RECURSIVE Longest(_, _, _, _, _)
\* best: <<rule, position behind the match>>; s ends with the byte for the end of the input
Longest(c, s, i, S, best) ==
  LET m == Matched(c, S)
      now == IF m # -1 THEN <<m, i>> ELSE best
  IN IF i > Len(s) \/ S = {} THEN now ELSE Longest(c, s, i + 1, TLCEval(Step(c, S, s[i])), TLCEval(now))

StateNo(k, name) == CHOOSE j \in DOMAIN F[k].states : F[k].states[j] = name

RECURSIVE Run(_, _, _, _, _)
Run(k, s, i, st, out) ==
  LET b == TLCEval(Longest(C[k][st], s, i, {0}, <<0, i>>))
      m == Mark[k][b[1]]
      nx == IF m[2] = <<>> THEN st ELSE StateNo(k, m[2])
  IN IF b[1] = 0 THEN Append(out, -1)                       \* no rule
     ELSE IF i = Len(s) THEN out                            \* a rule for the end
     ELSE IF b[2] = i THEN Append(out, -2)                  \* a rule that matched nothing
     ELSE Run(k, s, b[2], nx, IF m[1] = 0 THEN out ELSE out \o <<m[1], i - 1, b[2] - 1>>)

Scans == \A k \in DOMAIN Units : \A j \in DOMAIN Units[k].strs :
  LET want == Run(k, Append(Units[k].strs[j].s, 0), 1, 1, <<>>)
  IN want = Units[k].strs[j].t \/ PrintT(<<"SCAN", k, j, Units[k].strs[j].t, want>>)
ASSUME Scans
ASSUME \A k \in DOMAIN Units : PrintT(<<"READ", k, Len(F[k].states), Len(F[k].defs), Len(F[k].rules)>>)

VARIABLE u
Init == u = 0
Next == u < Len(Units) /\ u' = u + 1
Spec == Init /\ [][Next]_u
=============================================================================
