------------------------------- MODULE GramFile -------------------------------
(***************************************************************************)
(* Reading the two big data files of the parser and the scanner -- the     *)
(* grammar and the keyword list -- one lexeme at a time, and comparing     *)
(* what they say with the pinned data.                                     *)
(*                                                                         *)
(* Input.text   the bytes of gram.y                                        *)
(* Input.kw     the bytes of kwlist.h                                      *)
(* Input.levels the pinned precedence levels, lowest first: [assoc, syms]  *)
(* Input.rules  the pinned productions [lhs, rhs, prec], the first is the  *)
(*              start                                                      *)
(* Input.words  the pinned keywords <<word, token, category, label>>       *)
(* The order of productions, and of the symbols of a level, is free.       *)
(***************************************************************************)
EXTENDS Yacc, SequencesExt, Json, IOUtils
ASSUME TLCSet(1, TLCEval(JsonDeserialize(IOEnv.TRACE)))
Input == TLCGet(1)
ASSUME TLCSet(2, TLCEval(Input.text))
Text == TLCGet(2)
\* the pinned productions by left-hand side, then as a set
ASSUME TLCSet(3, TLCEval([n \in {Input.rules[r].lhs : r \in DOMAIN Input.rules} |->
                            {Input.rules[r] : r \in {q \in DOMAIN Input.rules : Input.rules[q].lhs = n}}]))
Rules == TLCGet(3)
ASSUME TLCSet(4, TLCEval(SetToSeq(DOMAIN Rules)))
Heads == TLCGet(4)
ASSUME TLCSet(5, TLCEval([n \in DOMAIN Rules |-> CHOOSE k \in DOMAIN Heads : Heads[k] = n]))
Id(n) == IF n \in DOMAIN Rules THEN TLCGet(5)[n] ELSE 0

VARIABLES
  i,      \* place in the file
  part,   \* "decl", "rules", "words", "done"
  on,     \* a precedence declaration is being read
  levels, \* levels read so far
  cur,    \* production being read: [lhs, rhs, prec]
  at,     \* what is expected in it: "name", "body", "prec"
  left    \* [seen: numbers of the left-hand sides read, missing: pinned productions of the
          \* current one (or pinned keywords) not yet read, first: nothing has been read]
vars == <<i, part, on, levels, cur, at, left>>

Empty == [lhs |-> <<>>, rhs |-> <<>>, prec |-> <<>>]
Init == /\ i = 1 /\ part = "decl" /\ on = FALSE /\ levels = <<>> /\ cur = Empty /\ at = "name"
        /\ left = [seen |-> {}, missing |-> {}, first |-> TRUE]

Say(x) == PrintT(x)
Check(c, x) == IF c THEN TRUE ELSE Say(x)

Levels(a, b) == /\ Len(a) = Len(b)
                /\ \A k \in DOMAIN a : a[k].assoc = b[k].assoc /\ Range(a[k].syms) = Range(b[k].syms)

\* all productions of n have been read: which are missing
Leave == Check(left.missing = {}, <<"MISSING", left.missing>>)
Done ==  \* the production cur is complete
  /\ Check(cur \in left.missing, <<"EXTRA", cur>>)
  /\ left' = [left EXCEPT !.missing = @ \ {cur}]
Known(n) == n \in DOMAIN Rules

Decl(l) ==
  CASE l.k = "mark" -> /\ part' = "rules"
                       /\ Check(Levels(levels, Input.levels), <<"LEVELS", levels>>)
                       /\ UNCHANGED <<on, levels, cur, at, left>>
    [] l.k = "dir" -> /\ on' = (l.v \in {YLeft, YRight, YNonassoc})
                      /\ levels' = IF on'
                                   THEN Append(levels, [assoc |-> IF l.v = YLeft THEN "left" ELSE IF l.v = YRight THEN "right" ELSE "nonassoc",
                                                        syms |-> <<>>])
                                   ELSE levels
                      /\ UNCHANGED <<part, cur, at, left>>
    [] l.k = "sym" /\ on -> /\ levels' = [levels EXCEPT ![Len(levels)].syms = Append(@, l.v)]
                            /\ UNCHANGED <<part, on, cur, at, left>>
    [] OTHER -> UNCHANGED <<part, on, levels, cur, at, left>>

Rule(l) ==
  CASE l.k \in {"mark", "end"} ->
         /\ part' = "done"
         /\ Check(cur.lhs = <<>>, <<"UNFINISHED", cur>>)
         /\ Leave
         /\ Check(left.seen = DOMAIN Heads, <<"ABSENT", {Heads[k] : k \in DOMAIN Heads \ left.seen}>>)
         /\ UNCHANGED <<on, levels, cur, at, left>>
    [] l.k = "sym" /\ cur.lhs = <<>> ->
         /\ cur' = [Empty EXCEPT !.lhs = l.v]
         /\ at' = "body"
         /\ Check(Id(l.v) \notin left.seen, <<"TWICE", l.v>>)
         /\ Check(left.first => l.v = Input.rules[1].lhs, <<"START", l.v>>)
         /\ left' = [seen |-> left.seen \cup {Id(l.v)}, missing |-> IF Known(l.v) THEN Rules[l.v] ELSE {}, first |-> FALSE]
         /\ UNCHANGED <<part, on, levels>>
    [] l.k = "p" /\ l.v = <<59>> -> /\ Done /\ Check(left'.missing = {}, <<"MISSING", left'.missing>>)
                                    /\ cur' = Empty /\ at' = "name" /\ UNCHANGED <<part, on, levels>>
    [] l.k = "p" /\ l.v = <<124>> -> /\ Done /\ cur' = [Empty EXCEPT !.lhs = cur.lhs] /\ UNCHANGED <<part, on, levels, at>>
    [] l.k = "dir" -> /\ at' = (IF l.v = YPrec THEN "prec" ELSE "body") /\ UNCHANGED <<part, on, levels, cur, left>>
    [] l.k = "sym" /\ at = "prec" -> /\ cur' = [cur EXCEPT !.prec = l.v] /\ at' = "body" /\ UNCHANGED <<part, on, levels, left>>
    [] l.k = "sym" -> cur' = [cur EXCEPT !.rhs = Append(@, l.v)] /\ UNCHANGED <<part, on, levels, at, left>>
    [] OTHER -> UNCHANGED <<part, on, levels, cur, at, left>>   \* the colon

Read == LET l == YLexeme(Text, i)
        IN /\ i' = l.to
           /\ IF l.lex = <<>> THEN UNCHANGED <<part, on, levels, cur, at, left>>
              ELSE IF part = "decl" THEN Decl(l.lex[1]) ELSE Rule(l.lex[1])

----------------------------------------------------------------------------
(* kwlist.h: PG_KEYWORD("word", TOKEN, CATEGORY, LABEL) at the start of a line *)
Mark == <<80, 71, 95, 75, 69, 89, 87, 79, 82, 68, 40>>
Kw == Input.kw
RECURSIVE KField(_, _)
KField(k, out) ==   \* up to a comma or the closing parenthesis, blanks and quotes dropped
  IF YCh(Kw, k) \in {44, 41, -1} THEN <<out, k>>
  ELSE KField(k + 1, IF Kw[k] \in YBlank \cup {34} THEN out ELSE Append(out, Kw[k]))
RECURSIVE KLine(_)
KLine(k) ==         \* the next line that starts a keyword
  IF k > Len(Kw) THEN 0
  ELSE IF k + Len(Mark) <= Len(Kw) /\ SubSeq(Kw, k, k + Len(Mark) - 1) = Mark THEN k + Len(Mark)
  ELSE IF YComment(Kw, k) THEN KLine(YAfterComment(Kw, k))
  ELSE KLine(IF YEndLine(Kw, k) >= Len(Kw) THEN Len(Kw) + 1 ELSE IF YCh(Kw, k) = 10 THEN k + 1 ELSE YEndLine(Kw, k) + 1)
Words == Range(Input.words)
Word == LET k == KLine(i)
            a == KField(k, <<>>)
            b == KField(a[2] + 1, <<>>)
            c == KField(b[2] + 1, <<>>)
            d == KField(c[2] + 1, <<>>)
            w == <<a[1], b[1], c[1], d[1]>>
        IN IF k = 0
           THEN /\ part' = "end"
                /\ Check(left.missing = {}, <<"NOWORD", left.missing>>)
                /\ UNCHANGED <<i, left>>
           ELSE /\ i' = YEndLine(Kw, d[2])
                /\ Check(w \in left.missing, <<"WORD", w>>)
                /\ left' = [left EXCEPT !.missing = @ \ {w}]
                /\ UNCHANGED part

Next == \/ part \in {"decl", "rules"} /\ Read
        \/ part = "done" /\ part' = "words" /\ i' = 1 /\ left' = [left EXCEPT !.missing = Words] /\ UNCHANGED <<on, levels, cur, at>>
        \/ part = "words" /\ Word /\ UNCHANGED <<on, levels, cur, at>>
Spec == Init /\ [][Next]_vars
\* states are told apart by the place in the file
View == <<i, part>>
=============================================================================
