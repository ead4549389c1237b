------------------------------- MODULE Filter --------------------------------
(***************************************************************************)
(* base_yylex: five keywords change into their look-ahead variants when    *)
(* the next token (comments do not count) is in a given set; identifiers   *)
(* and strings with Unicode escapes become plain ones.  Tokens here are    *)
(* <<symbol, start, end>> with the symbol numbers of Tables.               *)
(***************************************************************************)
EXTENDS Tables
Comments == {CComment, LComment}

\* look-ahead keyword |-> <<followers, variant>>
Merge == (Sym.FORMAT  :> <<{Sym.JSON}, Sym.FORMAT_LA>>)
      @@ (Sym.NOT     :> <<{Sym.BETWEEN, Sym.IN_P, Sym.LIKE, Sym.ILIKE, Sym.SIMILAR}, Sym.NOT_LA>>)
      @@ (Sym.NULLS_P :> <<{Sym.FIRST_P, Sym.LAST_P}, Sym.NULLS_LA>>)
      @@ (Sym.WITH    :> <<{Sym.TIME, Sym.ORDINALITY}, Sym.WITH_LA>>)
      @@ (Sym.WITHOUT :> <<{Sym.TIME}, Sym.WITHOUT_LA>>)
Mergers == DOMAIN Merge

\* first token after position i that is not a comment; 0 if there is none
RECURSIVE NextToken(_, _)
NextToken(toks, i) ==
    IF i > Len(toks) THEN 0
    ELSE IF toks[i][1] \in Comments THEN NextToken(toks, i + 1) ELSE i

Filtered(toks, i) ==
    LET k == toks[i][1] IN
    IF k \in Mergers
    THEN LET j == NextToken(toks, i + 1) IN
         IF j # 0 /\ toks[j][1] \in Merge[k][1] THEN Merge[k][2] ELSE k
    ELSE IF k = UIdent THEN Sym.IDENT
    ELSE IF k = USConst THEN Sym.SCONST
    ELSE k
=============================================================================
