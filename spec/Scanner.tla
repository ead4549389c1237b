------------------------------ MODULE Scanner ------------------------------
(***************************************************************************)
(* The PostgreSQL lexical scanner (scan.l of the pinned release, in the    *)
(* variant that returns comments as tokens) as a state machine over bytes. *)
(*                                                                         *)
(* A configuration records the scanner's mode (flex start condition) and   *)
(* position; Step(s, c) fires exactly one rule: the one with the longest   *)
(* match, the first in file order among equals.  Positions are byte        *)
(* offsets from 0; a byte is an integer 0..255; EOF is -1.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, ScanData
\* ScanData defines KeywordToken

EOF == -1
B(s, p) == IF p < Len(s) THEN s[p + 1] ELSE EOF

(***************************** character classes ***************************)
Newline   == {10, 13}
NNSpace   == {32, 9, 12, 11}              \* space tab formfeed vtab
Space     == Newline \cup NNSpace
Digit     == 48..57
OctDigit  == 48..55
BinDigit  == 48..49
HexDigit  == Digit \cup (65..70) \cup (97..102)
Upper     == 65..90
Lower     == 97..122
High      == 128..255
IdStart   == Upper \cup Lower \cup High \cup {95}
IdCont    == IdStart \cup Digit \cup {36}
DolStart  == IdStart
DolCont   == IdStart \cup Digit
\* ~ ! @ # ^ & | ` ? + - * / % < > =
OpChars   == {126, 33, 64, 35, 94, 38, 124, 96, 63, 43, 45, 42, 47, 37, 60, 62, 61}
\* characters that are not in any SQL-standard operator
NonSqlOp  == {126, 33, 64, 35, 94, 38, 124, 96, 63, 37}
\* , ( ) [ ] . ; : + - * / % ^ < > =
SelfChars == {44, 40, 41, 91, 93, 46, 59, 58, 43, 45, 42, 47, 37, 94, 60, 62, 61}
Quote     == 39
DQuote    == 34
Dollar    == 36
Star      == 42
Slash     == 47
Minus     == 45
Plus      == 43
Dot       == 46
Under     == 95
BSlash    == 92
AnyByte   == 1..255

(******************************* matching **********************************)
\* The end of a repetition is written as the one position where it cannot go on
\* although it could up to there (TLC tries positions in ascending order).

\* end of the maximal run of bytes of S starting at p
Run(s, p, S) ==
    CHOOSE e \in p..Len(s) : /\ e = Len(s) \/ s[e + 1] \notin S
                             /\ \A j \in (p + 1)..e : s[j] \in S

\* at most k bytes of S
RunMax(s, p, S, k) ==
    LET m == IF p + k < Len(s) THEN p + k ELSE Len(s) IN
    CHOOSE e \in p..m : /\ e = m \/ s[e + 1] \notin S
                        /\ \A j \in (p + 1)..e : s[j] \in S

\* (_?D)*
DigTail(s, p, D) ==
    LET More(e) == B(s, e) \in D \/ (B(s, e) = Under /\ B(s, e + 1) \in D)
    IN CHOOSE e \in p..Len(s) : ~More(e) /\ \A j \in p..(e - 1) : More(j)
DecInt(s, p) == IF B(s, p) \in Digit THEN DigTail(s, p + 1, Digit) ELSE p

\* 0[xX](_?D)+
RadixInt(s, p, X, D) ==
    IF B(s, p) = 48 /\ B(s, p + 1) \in X
    THEN LET e == DigTail(s, p + 2, D) IN IF e > p + 2 THEN e ELSE p
    ELSE p
\* 0[xX]_?
RadixFail(s, p, X) ==
    IF B(s, p) = 48 /\ B(s, p + 1) \in X
    THEN IF B(s, p + 2) = Under THEN p + 3 ELSE p + 2
    ELSE p
Numeric(s, p) ==
    LET e == DecInt(s, p) IN
    IF e > p THEN IF B(s, e) = Dot THEN LET f == DecInt(s, e + 1) IN f ELSE p
    ELSE IF B(s, p) = Dot THEN LET f == DecInt(s, p + 1) IN IF f > p + 1 THEN f ELSE p
    ELSE p
NumericFail(s, p) ==
    LET e == DecInt(s, p) IN
    IF e > p /\ B(s, e) = Dot /\ B(s, e + 1) = Dot THEN e + 2 ELSE p
\* the mantissa in front of an exponent
Mantissa(s, p) == LET n == Numeric(s, p) IN IF n > p THEN n ELSE DecInt(s, p)
ExpSign(s, p) ==      \* position after [Ee][-+]?, or p
    LET m == Mantissa(s, p) IN
    IF m > p /\ B(s, m) \in {69, 101}
    THEN IF B(s, m + 1) \in {Plus, Minus} THEN m + 2 ELSE m + 1
    ELSE p
Real(s, p) ==
    LET x == ExpSign(s, p) IN
    IF x > p THEN LET e == DecInt(s, x) IN IF e > x THEN e ELSE p ELSE p
RealFail(s, p) ==
    LET m == Mantissa(s, p) IN
    IF m > p /\ B(s, m) \in {69, 101} /\ B(s, m + 1) \in {Plus, Minus} THEN m + 2 ELSE p
Ident(s, p) == IF B(s, p) \in IdStart THEN Run(s, p + 1, IdCont) ELSE p
\* {decinteger}{identifier}: the digits may stop at any underscore, so the
\* identifier begins at the first byte after the leading digits
IntJunk(s, p) ==
    LET d == Run(s, p, Digit) IN IF d > p /\ B(s, d) \in IdStart THEN Run(s, d, IdCont) ELSE p
NumJunk(s, p) ==
    LET e == DecInt(s, p) IN
    IF B(s, e) = Dot
    THEN LET f == Run(s, e + 1, Digit) IN
         IF (e > p \/ f > e + 1) /\ B(s, f) \in IdStart THEN Run(s, f, IdCont) ELSE p
    ELSE p
RealJunk(s, p) ==
    LET x == ExpSign(s, p) IN
    IF x > p THEN LET g == Run(s, x, Digit) IN
                  IF g > x /\ B(s, g) \in IdStart THEN Run(s, g, IdCont) ELSE p
    ELSE p
DolFailed(s, p) ==
    IF B(s, p) = Dollar /\ B(s, p + 1) \in DolStart THEN Run(s, p + 1, DolCont) ELSE p
DolDelim(s, p) ==
    IF B(s, p) # Dollar THEN p
    ELSE IF B(s, p + 1) = Dollar THEN p + 2
    ELSE LET e == DolFailed(s, p) IN IF e > p /\ B(s, e) = Dollar THEN e + 1 ELSE p
Param(s, p) ==
    IF B(s, p) = Dollar /\ B(s, p + 1) \in Digit THEN Run(s, p + 1, Digit) ELSE p
XcStart(s, p) == IF B(s, p) = Slash /\ B(s, p + 1) = Star THEN Run(s, p + 2, OpChars) ELSE p
XcStop(s, p)  == LET e == Run(s, p, {Star}) IN IF e > p /\ B(s, e) = Slash THEN e + 1 ELSE p
Two(s, p, a, b) == IF B(s, p) = a /\ B(s, p + 1) = b THEN p + 2 ELSE p
TwoIn(s, p, A, b) == IF B(s, p) \in A /\ B(s, p + 1) = b THEN p + 2 ELSE p
Three(s, p, A, b, d) == IF B(s, p) \in A /\ B(s, p + 1) = b /\ B(s, p + 2) = d THEN p + 3 ELSE p
One(s, p, S) == IF B(s, p) \in S THEN p + 1 ELSE p
Comment(s, p) ==
    IF B(s, p) = Minus /\ B(s, p + 1) = Minus THEN Run(s, p + 2, AnyByte \ Newline) ELSE p
\* white space with at least one newline, then a quote
HasNewline(s, p, e) == \E j \in (p + 1)..e : s[j] \in Newline
QuoteContinue(s, p) ==
    LET e == Run(s, p, Space) IN
    IF B(s, e) = Quote /\ HasNewline(s, p, e) THEN e + 1 ELSE p
Unicode(s, p) ==
    IF B(s, p) # BSlash THEN p
    ELSE IF B(s, p + 1) = 117 THEN LET e == RunMax(s, p + 2, HexDigit, 4) IN IF e = p + 6 THEN e ELSE p
    ELSE IF B(s, p + 1) = 85 THEN LET e == RunMax(s, p + 2, HexDigit, 8) IN IF e = p + 10 THEN e ELSE p
    ELSE p
UnicodeFail(s, p) ==
    IF B(s, p) # BSlash THEN p
    ELSE IF B(s, p + 1) = 117 THEN RunMax(s, p + 2, HexDigit, 3)
    ELSE IF B(s, p + 1) = 85 THEN RunMax(s, p + 2, HexDigit, 7)
    ELSE p
OctEsc(s, p) ==
    IF B(s, p) = BSlash /\ B(s, p + 1) \in OctDigit THEN RunMax(s, p + 1, OctDigit, 3) ELSE p
HexEsc(s, p) ==
    IF B(s, p) = BSlash /\ B(s, p + 1) = 120 /\ B(s, p + 2) \in HexDigit
    THEN RunMax(s, p + 2, HexDigit, 2) ELSE p
AnyEsc(s, p) ==
    IF B(s, p) = BSlash /\ B(s, p + 1) # EOF /\ B(s, p + 1) \notin OctDigit THEN p + 2 ELSE p

\* a match never ends inside a multi-byte character
CharEnd(s, p) == Run(s, p, 128..191)

(******************* the rule lists, in file order *************************)
\* <<rule, end of its match>>; the end equals p when the rule does not match.
\* The rules of INITIAL are listed by the class of their first byte (rules that
\* cannot start with it are left out); a literal list is in the order of scan.l.
SpaceRules(s, p) == <<
            <<"whitespace", Run(s, p, Space)>> >>
LetterRules(s, p) == <<
            <<"xbstart", TwoIn(s, p, {98, 66}, Quote)>>,
            <<"xhstart", TwoIn(s, p, {120, 88}, Quote)>>,
            <<"xnstart", TwoIn(s, p, {110, 78}, Quote)>>,
            <<"xestart", TwoIn(s, p, {101, 69}, Quote)>>,
            <<"xusstart", Three(s, p, {117, 85}, 38, Quote)>>,
            <<"xuistart", Three(s, p, {117, 85}, 38, DQuote)>>,
            <<"xufailed", TwoIn(s, p, {117, 85}, 38)>>,
            <<"identifier", Ident(s, p)>>,
            <<"other", One(s, p, AnyByte \ {10})>> >>
NumberRules(s, p) == <<
            <<"decinteger", DecInt(s, p)>>,
            <<"hexinteger", RadixInt(s, p, {120, 88}, HexDigit)>>,
            <<"octinteger", RadixInt(s, p, {111, 79}, OctDigit)>>,
            <<"bininteger", RadixInt(s, p, {98, 66}, BinDigit)>>,
            <<"hexfail", RadixFail(s, p, {120, 88})>>,
            <<"octfail", RadixFail(s, p, {111, 79})>>,
            <<"binfail", RadixFail(s, p, {98, 66})>>,
            <<"numeric", Numeric(s, p)>>,
            <<"numericfail", NumericFail(s, p)>>,
            <<"real", Real(s, p)>>,
            <<"realfail", RealFail(s, p)>>,
            <<"junk", IntJunk(s, p)>>,
            <<"junk", NumJunk(s, p)>>,
            <<"junk", RealJunk(s, p)>>,
            <<"other", One(s, p, AnyByte \ {10})>> >>
DotRules(s, p) == <<
            <<"DOT_DOT", Two(s, p, Dot, Dot)>>,
            <<"self", One(s, p, SelfChars)>>,
            <<"numeric", Numeric(s, p)>>,
            <<"real", Real(s, p)>>,
            <<"realfail", RealFail(s, p)>>,
            <<"junk", NumJunk(s, p)>>,
            <<"junk", RealJunk(s, p)>>,
            <<"other", One(s, p, AnyByte \ {10})>> >>
DollarRules(s, p) == <<
            <<"dolqdelim", DolDelim(s, p)>>,
            <<"dolqfailed", DolFailed(s, p)>>,
            <<"param", Param(s, p)>>,
            <<"other", One(s, p, AnyByte \ {10})>> >>
PunctRules(s, p) == <<
            <<"comment", Comment(s, p)>>,
            <<"xcstart", XcStart(s, p)>>,
            <<"xqstart", One(s, p, {Quote})>>,
            <<"xdstart", One(s, p, {DQuote})>>,
            <<"TYPECAST", Two(s, p, 58, 58)>>,
            <<"COLON_EQUALS", Two(s, p, 58, 61)>>,
            <<"EQUALS_GREATER", Two(s, p, 61, 62)>>,
            <<"LESS_EQUALS", Two(s, p, 60, 61)>>,
            <<"GREATER_EQUALS", Two(s, p, 62, 61)>>,
            <<"NOT_EQUALS", Two(s, p, 60, 62)>>,
            <<"NOT_EQUALS", Two(s, p, 33, 61)>>,
            <<"self", One(s, p, SelfChars)>>,
            <<"operator", Run(s, p, OpChars)>>,
            <<"other", One(s, p, AnyByte \ {10})>> >>
Rules(s, p, mode) ==
    CASE mode = "INITIAL" ->
            LET b == B(s, p) IN
            IF b \in IdStart THEN LetterRules(s, p)
            ELSE IF b \in Space THEN SpaceRules(s, p)
            ELSE IF b \in Digit THEN NumberRules(s, p)
            ELSE IF b = Dot THEN DotRules(s, p)
            ELSE IF b = Dollar THEN DollarRules(s, p)
            ELSE PunctRules(s, p)
      [] mode = "xc" -> <<
            <<"xcnest", XcStart(s, p)>>,
            <<"xcstop", XcStop(s, p)>>,
            <<"skip", Run(s, p, AnyByte \ {Star, Slash})>>,
            <<"skip", One(s, p, OpChars)>>,
            <<"skip", Run(s, p, {Star})>> >>
      [] mode \in {"xb", "xh"} -> <<
            <<"inside", Run(s, p, AnyByte \ {Quote})>>,
            <<"quote", One(s, p, {Quote})>> >>
      [] mode \in {"xq", "xus"} -> <<
            <<"quote", One(s, p, {Quote})>>,
            <<"inside", Two(s, p, Quote, Quote)>>,
            <<"inside", Run(s, p, AnyByte \ {Quote})>> >>
      [] mode = "xe" -> <<
            <<"quote", One(s, p, {Quote})>>,
            <<"inside", Two(s, p, Quote, Quote)>>,
            <<"inside", Run(s, p, AnyByte \ {Quote, BSlash})>>,
            <<"unicode", Unicode(s, p)>>,
            <<"unicodefail", UnicodeFail(s, p)>>,
            <<"inside", AnyEsc(s, p)>>,
            <<"inside", OctEsc(s, p)>>,
            <<"inside", HexEsc(s, p)>>,
            <<"inside", One(s, p, AnyByte \ {10})>> >>
      [] mode = "xeu" -> <<
            <<"unicode2", Unicode(s, p)>>,
            <<"nosurrogate", One(s, p, AnyByte)>>,
            <<"unicodefail", UnicodeFail(s, p)>> >>
      [] mode = "xqs" -> <<
            <<"quotecontinue", QuoteContinue(s, p)>>,
            <<"quotestop", One(s, p, AnyByte)>> >>
      [] mode = "xdolq" -> <<
            <<"dolqdelim2", DolDelim(s, p)>>,
            <<"inside", Run(s, p, AnyByte \ {Dollar})>>,
            <<"inside", DolFailed(s, p)>>,
            <<"inside", One(s, p, AnyByte)>> >>
      [] mode \in {"xd", "xui"} -> <<
            <<"dquote", One(s, p, {DQuote})>>,
            <<"inside", Two(s, p, DQuote, DQuote)>>,
            <<"inside", Run(s, p, AnyByte \ {DQuote})>> >>

\* the longest match, the first rule among equals
RECURSIVE Best(_, _, _)
Best(rs, i, best) ==
    IF i > Len(rs) THEN best
    ELSE Best(rs, i + 1, IF rs[i][2] > best[2] THEN rs[i] ELSE best)
Fire(s, p, mode) ==
    IF B(s, p) = EOF THEN <<"EOF", p>>
    ELSE LET b == Best(Rules(s, p, mode), 1, <<"none", p>>) IN <<b[1], CharEnd(s, b[2])>>

(********************************* actions *********************************)
\* digits of a literal without underscores and leading zeros
Significant(s, p, e) ==
    LET d == SelectSeq(SubSeq(s, p + 1, e), LAMBDA x : x # Under)
        z == Run(d, 0, {48})
    IN SubSeq(d, z + 1, Len(d))
MaxInt10 == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>      \* 2147483647
RECURSIVE LexLeq(_, _, _)
LexLeq(a, b, i) ==
    IF i > Len(a) THEN TRUE
    ELSE IF a[i] < b[i] THEN TRUE ELSE IF a[i] > b[i] THEN FALSE ELSE LexLeq(a, b, i + 1)
FitsInt(s, p, e, radix) ==      \* does the literal denote at most 2^31 - 1 ?
    LET d == Significant(s, IF radix = 10 THEN p ELSE p + 2, e) IN
    CASE radix = 10 -> Len(d) < 10 \/ (Len(d) = 10 /\ LexLeq(d, MaxInt10, 1))
      [] radix = 16 -> Len(d) < 8 \/ (Len(d) = 8 /\ d[1] \in 48..55)
      [] radix = 8  -> Len(d) < 11 \/ (Len(d) = 11 /\ d[1] = 49)
      [] radix = 2  -> Len(d) < 32

HexVal(b) == IF b \in Digit THEN b - 48 ELSE IF b \in Upper THEN b - 55 ELSE b - 87
RECURSIVE HexNum(_, _, _, _)
HexNum(s, p, e, acc) == IF p >= e THEN acc ELSE HexNum(s, p + 1, e, acc * 16 + HexVal(B(s, p)))
\* code point of \uXXXX or \UXXXXXXXX, or 16r110000 when it is out of range
CodePoint(s, p, e) ==
    IF e = p + 10 /\ HexNum(s, p + 2, p + 6, 0) > 16 THEN 1114112 ELSE HexNum(s, p + 2, e, 0)
IsFirst(c)  == c \in 55296..56319
IsSecond(c) == c \in 56320..57343

\* where an operator has to stop: before a comment start, then not at + or -
\* unless it contains a character that no SQL operator has
CommentAt(s, p, e) ==
    LET Opens(q) == q + 1 < e /\ ((B(s, q) = Slash /\ B(s, q + 1) = Star)
                                  \/ (B(s, q) = Minus /\ B(s, q + 1) = Minus))
    IN CHOOSE x \in p..e : (x = e \/ Opens(x)) /\ \A q \in p..(x - 1) : ~Opens(q)
\* signs at the end go back, but one character stays
TrimSign(s, p, e) ==
    CHOOSE x \in (p + 1)..e : /\ x = p + 1 \/ B(s, x - 1) \notin {Plus, Minus}
                              /\ \A q \in x..(e - 1) : B(s, q) \in {Plus, Minus}
OpEnd(s, p, e) ==
    LET x == CommentAt(s, p, e) IN
    IF x - p > 1 /\ B(s, x - 1) \in {Plus, Minus} /\ \A i \in p..(x - 2) : B(s, i) \notin NonSqlOp
    THEN TrimSign(s, p, x) ELSE x
OpKind(s, p, e, x) ==
    IF x = e THEN "Op"                       \* nothing was cut off
    ELSE IF x - p = 1 /\ B(s, p) \in SelfChars THEN "RAW" \o ToString(B(s, p))
    ELSE IF x - p = 2 THEN
        LET two == <<B(s, p), B(s, p + 1)>> IN
        CASE two = <<61, 62>> -> "EQUALS_GREATER"
          [] two = <<62, 61>> -> "GREATER_EQUALS"
          [] two = <<60, 61>> -> "LESS_EQUALS"
          [] two \in {<<60, 62>>, <<33, 61>>} -> "NOT_EQUALS"
          [] OTHER -> "Op"
    ELSE "Op"
NameDataLen == 64

Fold(b) == IF b \in Upper THEN b + 32 ELSE b      \* ASCII only
FoldText(s, p, e) == [i \in 1..(e - p) |-> Fold(s[p + i])]
WordKind(s, p, e) ==
    LET w == TLCEval(FoldText(s, p, e)) IN KeywordToken(w)

(*************************** configurations ********************************)
\* pos, mode       where the scanner is
\* tok             start of the construct being scanned
\* before          string mode to resume on continuation
\* depth           nesting depth of block comments
\* tag             <<start, end>> of the opening dollar quote
\* nonempty        has the quoted construct any content
\* out             what the last step produced: <<>>, a token <<kind, start, end>>,
\*                 <<"ERR", message>>, <<"REP", message, position>> or <<"END">>
Init0 == [pos |-> 0, mode |-> "INITIAL", tok |-> 0, before |-> "INITIAL", depth |-> 0,
          tag |-> <<0, 0>>, nonempty |-> FALSE, out |-> <<>>]

Goto(c, e)        == [c EXCEPT !.pos = e, !.out = <<>>]
Emit(c, k, p, e)  == [c EXCEPT !.pos = e, !.mode = "INITIAL", !.out = <<k, p, e>>]
Begin(c, m, p, e) == [c EXCEPT !.pos = e, !.mode = m, !.tok = p, !.nonempty = FALSE, !.out = <<>>]
Err(c, m)         == [c EXCEPT !.mode = "stop", !.out = <<"ERR", m>>]
Rep(c, m, p)      == [c EXCEPT !.mode = "stop", !.out = <<"REP", m, p>>]
Integer(s, c, p, e, radix) == Emit(c, IF FitsInt(s, p, e, radix) THEN "ICONST" ELSE "FCONST", p, e)
JunkMsg == "trailing junk after numeric literal"
SurrMsg == "invalid Unicode surrogate pair"
StopKind(mode) == CASE mode = "xb" -> "BCONST" [] mode = "xh" -> "XCONST"
                    [] mode \in {"xq", "xe"} -> "SCONST" [] mode = "xus" -> "USCONST"
EofMsg(mode) ==
    CASE mode = "xc" -> "unterminated /* comment"
      [] mode = "xb" -> "unterminated bit string literal"
      [] mode = "xh" -> "unterminated hexadecimal string literal"
      [] mode \in {"xq", "xe", "xus"} -> "unterminated quoted string"
      [] mode = "xdolq" -> "unterminated dollar-quoted string"
      [] mode \in {"xd", "xui"} -> "unterminated quoted identifier"

Step(s, c) ==
    LET p == c.pos
        f == Fire(s, p, c.mode)
        r == f[1]
        e == f[2]
    IN
    CASE c.mode = "INITIAL" -> (
         CASE r = "EOF"         -> [c EXCEPT !.mode = "stop", !.out = <<"END">>]
           [] r = "whitespace"  -> Goto(c, e)
           [] r = "comment"     -> Emit(c, "SQL_COMMENT", p, e)
           [] r = "xcstart"     -> [Begin(c, "xc", p, p + 2) EXCEPT !.depth = 0]
           [] r = "xbstart"     -> Begin(c, "xb", p, e)
           [] r = "xhstart"     -> Begin(c, "xh", p, e)
           [] r = "xnstart"     -> Emit(c, "NCHAR", p, p + 1)     \* only the letter, this time
           [] r = "xqstart"     -> Begin(c, "xq", p, e)
           [] r = "xestart"     -> Begin(c, "xe", p, e)
           [] r = "xusstart"    -> Begin(c, "xus", p, e)
           [] r = "xdstart"     -> Begin(c, "xd", p, e)
           [] r = "xuistart"    -> Begin(c, "xui", p, e)
           [] r = "xufailed"    -> Emit(c, "IDENT", p, p + 1)
           [] r = "dolqdelim"   -> [Begin(c, "xdolq", p, e) EXCEPT !.tag = <<p, e>>]
           [] r = "dolqfailed"  -> Emit(c, "RAW36", p, p + 1)
           [] r \in {"TYPECAST", "DOT_DOT", "COLON_EQUALS", "EQUALS_GREATER", "LESS_EQUALS",
                     "GREATER_EQUALS", "NOT_EQUALS"} -> Emit(c, r, p, e)
           [] r \in {"self", "other"} -> Emit(c, "RAW" \o ToString(B(s, p)), p, p + 1)
           [] r = "operator"    ->
                LET x == OpEnd(s, p, e) k == OpKind(s, p, e, x) IN
                IF x - p >= NameDataLen THEN Err(c, "operator too long") ELSE Emit(c, k, p, x)
           [] r = "param"       -> Emit(c, "PARAM", p, e)
           [] r = "decinteger"  -> Integer(s, c, p, e, 10)
           [] r = "hexinteger"  -> Integer(s, c, p, e, 16)
           [] r = "octinteger"  -> Integer(s, c, p, e, 8)
           [] r = "bininteger"  -> Integer(s, c, p, e, 2)
           [] r = "hexfail"     -> Err(c, "invalid hexadecimal integer")
           [] r = "octfail"     -> Err(c, "invalid octal integer")
           [] r = "binfail"     -> Err(c, "invalid binary integer")
           [] r \in {"numeric", "real"} -> Emit(c, "FCONST", p, e)
           [] r = "numericfail" -> Integer(s, c, p, e - 2, 10)
           [] r \in {"realfail", "junk"} -> Err(c, JunkMsg)
           [] r = "identifier"  -> Emit(c, WordKind(s, p, e), p, e))
      [] c.mode = "xqs" ->
         IF r = "quotecontinue" THEN [Goto(c, e) EXCEPT !.mode = c.before]
         ELSE Emit(c, StopKind(c.before), c.tok, p)
      [] c.mode = "xeu" ->
         IF r = "unicode2" /\ IsSecond(CodePoint(s, p, e)) THEN [Goto(c, e) EXCEPT !.mode = "xe"]
         ELSE IF r = "unicodefail" THEN Rep(c, "invalid Unicode escape", p)
         ELSE Err(c, SurrMsg)
      [] OTHER -> (
         CASE r = "EOF"         -> Err(c, EofMsg(c.mode))
           [] r = "skip"        -> Goto(c, e)
           [] r = "xcnest"      -> [Goto(c, p + 2) EXCEPT !.depth = c.depth + 1]
           [] r = "xcstop"      -> IF c.depth = 0 THEN Emit(c, "C_COMMENT", c.tok, e)
                                   ELSE [Goto(c, e) EXCEPT !.depth = c.depth - 1]
           [] r = "inside"      -> [Goto(c, e) EXCEPT !.nonempty = TRUE]
           [] r = "quote"       -> [Goto(c, e) EXCEPT !.before = c.mode, !.mode = "xqs"]
           [] r = "unicode"     ->
                LET u == CodePoint(s, p, e) IN
                IF IsFirst(u) THEN [Goto(c, e) EXCEPT !.mode = "xeu"]
                ELSE IF IsSecond(u) THEN Err(c, SurrMsg)
                ELSE IF u = 0 \/ u > 1114111 THEN Err(c, "invalid Unicode escape value")
                ELSE [Goto(c, e) EXCEPT !.nonempty = TRUE]
           [] r = "unicodefail" -> Rep(c, "invalid Unicode escape", p)
           [] r = "dolqdelim2"  ->
                IF SubSeq(s, p + 1, e) = SubSeq(s, c.tag[1] + 1, c.tag[2])
                THEN Emit(c, "SCONST", c.tok, e)
                ELSE Goto(c, e - 1)                   \* the last $ may open the real one
           [] r = "dquote"      ->
                IF ~c.nonempty THEN Err(c, "zero-length delimited identifier")
                ELSE Emit(c, IF c.mode = "xd" THEN "IDENT" ELSE "UIDENT", c.tok, e))

\* a NUL byte cannot be part of a query: it is refused before anything is scanned
NulMsg == "invalid byte sequence for encoding \"UTF8\": 0x00"
DetailOf(m) == IF m = NulMsg THEN "The input must not contain NUL bytes."
               ELSE "Unicode escapes must be \\uXXXX or \\UXXXXXXXX."
FirstNul(s) == LET e == Run(s, 0, AnyByte) IN IF e < Len(s) THEN e ELSE -1
Start(s) == IF FirstNul(s) >= 0 THEN Rep(Init0, NulMsg, FirstNul(s)) ELSE Init0

IsToken(o) == o # <<>> /\ o[1] \notin {"ERR", "REP", "END"}
Stopped(c) == c.mode = "stop"

\* the whole scan: <<tokens, outcome>>
RECURSIVE ScanFrom(_, _, _)
ScanFrom(s, c, toks) ==
    IF Stopped(c) THEN <<toks, c.out>>
    ELSE LET d == Step(s, c) IN ScanFrom(s, d, IF IsToken(d.out) THEN Append(toks, d.out) ELSE toks)
Scan(s) == ScanFrom(s, Start(s), <<>>)
=============================================================================
