------------------------------- MODULE Regex -------------------------------
(***************************************************************************)
(* The regular expressions of the regex crate that the scanner's second    *)
(* engine uses ("(?-u)^..." on bytes), and their leftmost-first meaning:   *)
(* threads in order of preference; a thread that matches cuts off the ones *)
(* behind it; the last match recorded is the match.                        *)
(*                                                                         *)
(* Read gives a node, or Bad when the text uses syntax outside of this     *)
(* fragment (nothing is then claimed about it).                            *)
(***************************************************************************)
EXTENDS Pattern

Bad == [k |-> "bad"]
Prefix == <<40, 63, 45, 117, 41, 94>>           \* (?-u)^

StarR(a, lazy) == [k |-> "star", a |-> a, lazy |-> lazy]
AltR(a, b) == IF a.k = "bad" \/ b.k = "bad" THEN Bad ELSE [k |-> "alt", a |-> a, b |-> b]
CatR(a, b) == IF a.k = "bad" \/ b.k = "bad" THEN Bad ELSE Cat(a, b)
OptR(a, lazy) == IF lazy THEN AltR(Eps, a) ELSE AltR(a, Eps)
RECURSIVE UpToR(_, _, _)
UpToR(a, n, lazy) == IF n = 0 THEN Eps ELSE OptR(CatR(a, UpToR(a, n - 1, lazy)), lazy)

\* escapes of the regex crate that are not escapes of flex, or mean something else there
Word(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122
KnownEscape(t, i) ==
  LET c == Ch(t, i)
  IN c \in {97, 102, 110, 114, 116, 118} \/ (c = 120 /\ IsHex(Ch(t, i + 1)) /\ IsHex(Ch(t, i + 2))) \/ (c # -1 /\ ~Word(c))

\* end of a class, or 0 when it nests or uses set operations
RECURSIVE ClassEnd(_, _, _)
ClassEnd(t, i, first) ==
  LET c == Ch(t, i)
  IN CASE c = -1 -> 0
       [] c = 93 /\ ~first -> i
       [] c = 91 \/ (c \in {38, 45, 126} /\ Ch(t, i + 1) = c) -> 0
       [] c = 92 -> IF KnownEscape(t, i + 1) THEN ClassEnd(t, i + 2, FALSE) ELSE 0
       [] OTHER -> ClassEnd(t, i + 1, FALSE)

RECURSIVE RAlt(_, _)
RECURSIVE RCat(_, _, _)

RAtom(t, i) ==
  LET c == Ch(t, i)
  IN CASE c = 40 ->
            LET j == IF Ch(t, i + 1) = 63 THEN (IF Ch(t, i + 2) = 58 THEN i + 3 ELSE 0) ELSE i + 1
            IN IF j = 0 THEN <<Bad, Len(t) + 1>>
               ELSE LET r == RAlt(t, j) IN IF Ch(t, r[2]) = 41 THEN <<r[1], r[2] + 1>> ELSE <<Bad, Len(t) + 1>>
       [] c = 91 ->
            LET s == IF Ch(t, i + 1) = 94 THEN i + 2 ELSE i + 1
            IN IF Ch(t, s) = 93 \/ ClassEnd(t, s, TRUE) = 0 THEN <<Bad, Len(t) + 1>> ELSE Class(t, i + 1)
       [] c = 46 -> <<SetNode((1..255) \ {10}), i + 1>>
       [] c = 94 -> <<[k |-> "bol"], i + 1>>
       [] c = 36 -> <<[k |-> "eol"], i + 1>>
       [] c = 92 -> IF KnownEscape(t, i + 1) THEN LET e == Escape(t, i + 1) IN <<SetNode({e[1]}), e[2]>>
                    ELSE <<Bad, Len(t) + 1>>
       [] c \in {42, 43, 63, 123, 125} -> <<Bad, Len(t) + 1>>
       [] OTHER -> <<SetNode({c}), i + 1>>

RECURSIVE RPost(_, _, _)
RPost(a, t, i) ==
  LET c == Ch(t, i)
      num == c = 123 /\ IsDig(Ch(t, i + 1))
      lo == IF num THEN Number(t, i + 1, 0) ELSE <<0, 0>>
      hi == IF Ch(t, lo[2]) = 44 THEN Number(t, lo[2] + 1, 0) ELSE lo
      e == IF num THEN hi[2] + 1 ELSE i + 1
      lazy == Ch(t, e) = 63
      n == IF lazy THEN e + 1 ELSE e
  IN IF a.k = "bad" THEN <<Bad, Len(t) + 1>>
     ELSE CASE c = 42 -> RPost(StarR(a, lazy), t, n)
            [] c = 43 -> RPost(CatR(a, StarR(a, lazy)), t, n)
            [] c = 63 -> RPost(OptR(a, lazy), t, n)
            [] c = 123 -> IF num /\ Ch(t, hi[2]) = 125 /\ hi[1] >= lo[1] /\ ~(Ch(t, lo[2]) = 44 /\ ~IsDig(Ch(t, lo[2] + 1)))
                          THEN RPost(CatR(Copies(a, lo[1]), UpToR(a, hi[1] - lo[1], lazy)), t, n)
                          ELSE <<Bad, Len(t) + 1>>
            [] OTHER -> <<a, i>>

RCat(t, i, acc) ==
  IF i > Len(t) \/ Ch(t, i) \in {124, 41} THEN <<acc, i>>
  ELSE LET a == RAtom(t, i)
           p == RPost(a[1], t, a[2])
       IN RCat(t, p[2], CatR(acc, p[1]))

RAlt(t, i) ==
  LET a == RCat(t, i, Eps)
  IN IF Ch(t, a[2]) = 124
     THEN LET b == RAlt(t, a[2] + 1) IN <<AltR(a[1], b[1]), b[2]>>
     ELSE a

ReadRegex(t) ==
  IF Len(t) < 6 \/ SubSeq(t, 1, 6) # Prefix THEN Bad
  ELSE LET r == RAlt(t, 7)
       IN IF r[2] # Len(t) + 1 THEN Bad
          ELSE r[1]       \* "^" binds to the first alternative only: one alternative at the top, see OneTop

\* The anchor holds for the whole text only if there is one alternative at the top.
OneTop(t) == LET r == RCat(t, 7, Eps) IN r[2] = Len(t) + 1

(* ------------------------------- meaning ------------------------------- *)
(* A thread is what is left to match: a sequence of nodes.  Acc: threads   *)
(* at a byte (l), everything visited (v), whether one has matched (m).     *)
RECURSIVE Cl(_, _, _, _)
Cl(st, acc, s0, e0) ==
  IF acc.m \/ st \in acc.v THEN acc
  ELSE IF st = <<>> THEN [acc EXCEPT !.m = TRUE]
  ELSE LET h == Head(st)
           t == Tail(st)
           v == [acc EXCEPT !.v = @ \cup {st}]
       IN CASE h.k = "set" -> [v EXCEPT !.l = Append(@, st)]
            [] h.k = "eps" -> Cl(t, v, s0, e0)
            [] h.k = "cat" -> Cl(<<h.a, h.b>> \o t, v, s0, e0)
            [] h.k = "alt" -> Cl(<<h.b>> \o t, Cl(<<h.a>> \o t, v, s0, e0), s0, e0)
            [] h.k = "star" -> IF h.lazy THEN Cl(<<h.a>> \o st, Cl(t, v, s0, e0), s0, e0)
                               ELSE Cl(t, Cl(<<h.a>> \o st, v, s0, e0), s0, e0)
            [] h.k = "bol" -> IF s0 THEN Cl(t, v, s0, e0) ELSE v
            [] OTHER -> IF e0 THEN Cl(t, v, s0, e0) ELSE v

RECURSIVE Closure(_, _, _, _, _)
Closure(L, i, acc, s0, e0) == IF i > Len(L) THEN acc ELSE Closure(L, i + 1, Cl(L[i], acc, s0, e0), s0, e0)
None == [l |-> <<>>, v |-> {}, m |-> FALSE]
Threads(L, s0, e0) == Closure(L, 1, None, s0, e0)

RECURSIVE Moved(_, _, _)
Moved(l, b, i) == IF i > Len(l) THEN <<>> ELSE (IF b \in Head(l[i]).s THEN <<Tail(l[i])>> ELSE <<>>) \o Moved(l, b, i + 1)
=============================================================================
