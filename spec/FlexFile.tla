------------------------------ MODULE FlexFile ------------------------------
(***************************************************************************)
(* What a flex file in the format of scan.l says: start conditions,        *)
(* definitions, and the rules in order with their start conditions,        *)
(* pattern and action.  A rule whose action is "|" has the action of the   *)
(* next rule.  Text is a sequence of bytes.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

FCh(t, i) == IF i > Len(t) THEN -1 ELSE t[i]
FBlank(c) == c \in {9, 32, 13}
FWord(c) == c \in (65..90) \cup (97..122) \cup (48..57) \cup {95}
FStart(c) == FWord(c) /\ c \notin 48..57

RECURSIVE FEol(_, _)                          \* the line break, or behind the end
FEol(t, i) == IF i > Len(t) \/ t[i] = 10 THEN i ELSE FEol(t, i + 1)
FNext(t, i) == FEol(t, i) + 1                 \* start of the next line
RECURSIVE FSkip(_, _)
FSkip(t, i) == IF FBlank(FCh(t, i)) THEN FSkip(t, i + 1) ELSE i
RECURSIVE FEndWord(_, _)
FEndWord(t, i) == IF FWord(FCh(t, i)) THEN FEndWord(t, i + 1) ELSE i
RECURSIVE FToBlank(_, _)
FToBlank(t, i) == LET c == FCh(t, i) IN IF FBlank(c) \/ c = 10 \/ c = -1 THEN i ELSE FToBlank(t, i + 1)
RECURSIVE FTrim(_, _, _)                      \* t[i..j] without blanks at its end
FTrim(t, i, j) == IF j >= i /\ FBlank(t[j]) THEN FTrim(t, i, j - 1) ELSE SubSeq(t, i, j)
At(t, i, w) == i + Len(w) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(w) - 1) = w

FMark == <<37, 37>>                           \* %%
FOpen == <<37, 123>>                          \* %{
FClose == <<37, 125>>                         \* %}
FTop == <<37, 116, 111, 112, 123>>            \* %top{
FExcl == <<37, 120>>                          \* %x
FComment == <<47, 42>>
FEof == <<60, 60, 69, 79, 70, 62, 62>>
Initial == <<73, 78, 73, 84, 73, 65, 76>>

RECURSIVE FToLine(_, _, _)                    \* behind the next line that starts with w
FToLine(t, i, w) == IF i > Len(t) THEN i ELSE IF At(t, i, w) THEN FNext(t, i) ELSE FToLine(t, FNext(t, i), w)
RECURSIVE FEndComment(_, _)
FEndComment(t, i) == IF i >= Len(t) THEN Len(t) + 1 ELSE IF t[i] = 42 /\ t[i + 1] = 47 THEN i + 2 ELSE FEndComment(t, i + 1)

RECURSIVE FNames(_, _, _)                     \* the names on the rest of a line
FNames(t, i, out) ==
  LET j == FSkip(t, i)
      e == FEndWord(t, j)
  IN IF e = j THEN out ELSE FNames(t, e, Append(out, SubSeq(t, j, e - 1)))

RECURSIVE FDefs(_, _, _, _)
FDefs(t, i, states, defs) ==
  LET e == FEndWord(t, i)
      j == FSkip(t, e)
  IN IF i > Len(t) THEN [s |-> states, d |-> defs, at |-> i]
     ELSE IF At(t, i, FMark) THEN [s |-> states, d |-> defs, at |-> FNext(t, i)]
     ELSE IF At(t, i, FOpen) THEN FDefs(t, FToLine(t, FNext(t, i), FClose), states, defs)
     ELSE IF At(t, i, FTop) THEN FDefs(t, FToLine(t, FNext(t, i), <<125>>), states, defs)
     ELSE IF At(t, i, FComment) THEN FDefs(t, FNext(t, FEndComment(t, i + 2)), states, defs)
     ELSE IF At(t, i, FExcl) /\ FBlank(FCh(t, i + 2)) THEN FDefs(t, FNext(t, i), states \o FNames(t, i + 2, <<>>), defs)
     ELSE IF FStart(FCh(t, i)) THEN FDefs(t, FNext(t, i), states, Append(defs, <<SubSeq(t, i, e - 1), FTrim(t, j, FEol(t, j) - 1)>>))
     ELSE FDefs(t, FNext(t, i), states, defs)

RECURSIVE FConds(_, _, _)                     \* names up to ">" ; i is at a name
FConds(t, i, out) ==
  LET e == FEndWord(t, i)
      o == Append(out, SubSeq(t, i, e - 1))
  IN IF FCh(t, e) = 44 THEN FConds(t, e + 1, o) ELSE <<o, e + 1>>

\* the code from i on ends with the line on which its braces are balanced
RECURSIVE FCode(_, _, _)
FCode(t, i, d) ==
  IF i > Len(t) \/ (t[i] = 10 /\ d = 0) THEN i
  ELSE FCode(t, i + 1, IF t[i] = 123 THEN d + 1 ELSE IF t[i] = 125 THEN d - 1 ELSE d)

RECURSIVE FRules(_, _, _, _)
FRules(t, i, block, out) ==
  LET own == FCh(t, i) = 60 /\ FCh(t, i + 1) # 60
      c == IF own THEN FConds(t, i + 1, <<>>) ELSE <<block, i>>
      j == c[2]
      pe == IF At(t, j, FEof) THEN j + 7 ELSE FToBlank(t, j)
      as == FSkip(t, pe)
      ae == FCode(t, as, 0)
      act == FTrim(t, as, ae - 1)
  IN IF i > Len(t) \/ At(t, i, FMark) THEN out
     ELSE IF FSkip(t, i) >= FEol(t, i) THEN FRules(t, FNext(t, i), block, out)
     ELSE IF FCh(t, i) = 125 THEN FRules(t, FNext(t, i), <<>>, out)
     ELSE IF own /\ FCh(t, j) = 123 /\ FEol(t, j) = j + 1 THEN FRules(t, FNext(t, j), c[1], out)
     ELSE FRules(t, ae + 1, block,
                 Append(out, [states |-> IF c[1] = <<>> THEN <<Initial>> ELSE c[1], pat |-> SubSeq(t, j, pe - 1), act |-> act]))

Bar == <<124>>
RECURSIVE Owner(_, _)
Owner(R, k) == IF R[k].act = Bar THEN Owner(R, k + 1) ELSE k

FlexFile(t) ==
  LET d == TLCEval(FDefs(t, 1, <<Initial>>, <<>>))
      r == TLCEval(FRules(t, d.at, <<>>, <<>>))
  IN [states |-> d.s, defs |-> d.d,
      rules |-> TLCEval([k \in DOMAIN r |-> [states |-> r[k].states, pat |-> r[k].pat, act |-> r[Owner(r, k)].act, own |-> Owner(r, k)]])]
=============================================================================
