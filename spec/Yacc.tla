-------------------------------- MODULE Yacc --------------------------------
(***************************************************************************)
(* What a yacc grammar file says: its precedence levels and productions.   *)
(* Comments, semantic actions, types, layout and the other directives mean *)
(* nothing here.  A name is a sequence of characters; a literal token      *)
(* keeps its quotes.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

YCh(t, i) == IF i > Len(t) THEN -1 ELSE t[i]
YBlank == {9, 10, 11, 12, 13, 32}
YLetter(c) == c \in (65..90) \cup (97..122) \cup {95, 46}
YWord(c) == YLetter(c) \/ c \in 48..57

RECURSIVE YEndLine(_, _)
YEndLine(t, i) == IF i > Len(t) \/ t[i] = 10 THEN i ELSE YEndLine(t, i + 1)
RECURSIVE YEndComment(_, _)
YEndComment(t, i) == IF i >= Len(t) THEN Len(t) + 1
                     ELSE IF t[i] = 42 /\ t[i + 1] = 47 THEN i + 2 ELSE YEndComment(t, i + 1)
\* behind the closing quote; i is behind the opening one
RECURSIVE YEndQuote(_, _, _)
YEndQuote(t, i, q) == IF i > Len(t) THEN i
                      ELSE IF t[i] = q THEN i + 1
                      ELSE YEndQuote(t, IF t[i] = 92 THEN i + 2 ELSE i + 1, q)
RECURSIVE YEndWord(_, _)
YEndWord(t, i) == IF YWord(YCh(t, i)) THEN YEndWord(t, i + 1) ELSE i
RECURSIVE YEndTag(_, _)
YEndTag(t, i) == IF i > Len(t) \/ t[i] = 62 THEN i + 1 ELSE YEndTag(t, i + 1)
RECURSIVE YEndProlog(_, _)
YEndProlog(t, i) == IF i >= Len(t) THEN Len(t) + 1
                    ELSE IF t[i] = 37 /\ t[i + 1] = 125 THEN i + 2 ELSE YEndProlog(t, i + 1)

YComment(t, i) == YCh(t, i) = 47 /\ YCh(t, i + 1) \in {42, 47}
YAfterComment(t, i) == IF YCh(t, i + 1) = 42 THEN YEndComment(t, i + 2) ELSE YEndLine(t, i)

\* behind a braced piece of code; strings and comments in it may hold braces
RECURSIVE YEndCode(_, _, _)
YEndCode(t, i, d) ==
  IF i > Len(t) THEN i
  ELSE IF t[i] = 123 THEN YEndCode(t, i + 1, d + 1)
  ELSE IF t[i] = 125 THEN IF d = 1 THEN i + 1 ELSE YEndCode(t, i + 1, d - 1)
  ELSE IF YComment(t, i) THEN YEndCode(t, YAfterComment(t, i), d)
  ELSE IF t[i] \in {34, 39} THEN YEndCode(t, YEndQuote(t, i + 1, t[i]), d)
  ELSE YEndCode(t, i + 1, d)

(* The lexeme at i, if one starts there, and where the reading goes on.     *)
(* Kinds: "dir" a directive, "mark" %%, "sym" a name or literal, "p" other *)
(* punctuation of the rules, "end" the end of the file.                    *)
YLexeme(t, i) ==
  LET c == YCh(t, i)
      d == YCh(t, i + 1)
      skip(j) == [to |-> j, lex |-> <<>>]
      is(k, v, j) == [to |-> j, lex |-> <<[k |-> k, v |-> v]>>]
  IN CASE i > Len(t) -> is("end", <<>>, i)
       [] c \in YBlank -> skip(i + 1)
       [] YComment(t, i) -> skip(YAfterComment(t, i))
       [] c = 37 /\ d = 123 -> skip(YEndProlog(t, i + 2))
       [] c = 37 /\ d = 37 -> is("mark", <<>>, i + 2)
       [] c = 37 -> LET w == YEndWord(t, i + 1) IN is("dir", SubSeq(t, i + 1, w - 1), w)
       [] c = 123 -> skip(YEndCode(t, i, 0))
       [] c = 60 -> skip(YEndTag(t, i))
       [] c = 39 -> LET e == YEndQuote(t, i + 1, 39) IN is("sym", SubSeq(t, i, e - 1), e)
       [] c = 34 -> skip(YEndQuote(t, i + 1, 34))
       [] YLetter(c) -> LET w == YEndWord(t, i + 1) IN is("sym", SubSeq(t, i, w - 1), w)
       [] c \in {58, 124, 59} -> is("p", <<c>>, i + 1)
       [] OTHER -> skip(i + 1)

RECURSIVE YLex(_, _, _)
YLex(t, i, out) ==
  LET l == YLexeme(t, i)
  IN IF l.lex # <<>> /\ l.lex[1].k = "end" THEN out ELSE YLex(t, l.to, out \o l.lex)

YLeft == <<108, 101, 102, 116>>
YRight == <<114, 105, 103, 104, 116>>
YNonassoc == <<110, 111, 110, 97, 115, 115, 111, 99>>
YPrec == <<112, 114, 101, 99>>

(* Declarations up to the mark: the precedence levels, lowest first. *)
RECURSIVE YDecl(_, _, _, _)
YDecl(x, i, on, levels) ==
  IF i > Len(x) \/ x[i].k = "mark" THEN <<levels, i + 1>>
  ELSE IF x[i].k = "dir"
       THEN IF x[i].v \in {YLeft, YRight, YNonassoc}
            THEN YDecl(x, i + 1, TRUE,
                       Append(levels, [assoc |-> IF x[i].v = YLeft THEN "left" ELSE IF x[i].v = YRight THEN "right" ELSE "nonassoc",
                                       syms |-> <<>>]))
            ELSE YDecl(x, i + 1, FALSE, levels)
  ELSE IF on /\ x[i].k = "sym"
       THEN YDecl(x, i + 1, on, [levels EXCEPT ![Len(levels)].syms = Append(@, x[i].v)])
  ELSE YDecl(x, i + 1, on, levels)

(* Productions: r is the one being read, lhs its left-hand side. *)
RECURSIVE YRules(_, _, _, _, _, _)
YRules(x, i, lhs, rhs, prec, out) ==
  LET done == Append(out, [lhs |-> lhs, rhs |-> rhs, prec |-> prec])
      p == IF i <= Len(x) /\ x[i].k = "p" THEN x[i].v[1] ELSE 0
  IN IF i > Len(x) \/ x[i].k = "mark" THEN IF lhs = <<>> THEN out ELSE done
     ELSE IF lhs = <<>>
          THEN IF x[i].k = "sym" THEN YRules(x, i + 2, x[i].v, <<>>, <<>>, out)   \* name and colon
               ELSE YRules(x, i + 1, lhs, rhs, prec, out)
     ELSE IF p = 59 THEN YRules(x, i + 1, <<>>, <<>>, <<>>, done)
     ELSE IF p = 124 THEN YRules(x, i + 1, lhs, <<>>, <<>>, done)
     ELSE IF x[i].k = "dir"
          THEN IF x[i].v = YPrec THEN YRules(x, i + 2, lhs, rhs, x[i + 1].v, out)
               ELSE YRules(x, i + 1, lhs, rhs, prec, out)                         \* %empty
     ELSE YRules(x, i + 1, lhs, Append(rhs, x[i].v), prec, out)

YFile(t) ==
  LET x == TLCEval(YLex(t, 1, <<>>))
      d == TLCEval(YDecl(x, 1, FALSE, <<>>))
  IN [levels |-> d[1], rules |-> YRules(x, d[2], <<>>, <<>>, <<>>, <<>>)]
=============================================================================
