------------------------------ MODULE Pattern ------------------------------
(***************************************************************************)
(* The pattern language of a flex file, as the flex manual defines it:     *)
(* how the text of a pattern is read, and which byte strings it matches.   *)
(* Byte 0 stands for the end of the input.                                 *)
(*                                                                         *)
(*   alternatives:  concat ("|" concat)*        (lowest precedence)        *)
(*   concat:        piece*                                                 *)
(*   piece:         atom followed by any of  *  +  ?  {n}  {n,m}           *)
(*   atom:          (alternatives)  [class]  [^class]  "text"  {name}      *)
(*                  \escape  .  <<EOF>>  byte                              *)
(*                                                                         *)
(* A pattern denotes a set of byte strings; Auto gives its position        *)
(* automaton, from which the whole language can be explored.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* -------------------------------- reading ------------------------------ *)
Ch(t, i) == IF i > Len(t) THEN -1 ELSE t[i]

IsOct(c) == c \in 48..55
IsDig(c) == c \in 48..57
IsHex(c) == IsDig(c) \/ c \in 65..70 \/ c \in 97..102
HexVal(c) == IF IsDig(c) THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87

(* The byte an escape stands for, and where it ends; i is after the backslash. *)
Escape(t, i) ==
  LET c == Ch(t, i)
      h1 == Ch(t, i + 1)
      h2 == Ch(t, i + 2)
  IN CASE c = 98  -> <<8, i + 1>>
       [] c = 102 -> <<12, i + 1>>
       [] c = 116 -> <<9, i + 1>>
       [] c = 114 -> <<13, i + 1>>
       [] c = 110 -> <<10, i + 1>>
       [] c = 118 -> <<11, i + 1>>
       [] c = 97  -> <<7, i + 1>>
       [] c = 120 /\ IsHex(h1) /\ IsHex(h2) -> <<HexVal(h1) * 16 + HexVal(h2), i + 3>>
       [] c = 120 /\ IsHex(h1) -> <<HexVal(h1), i + 2>>
       [] IsOct(c) /\ IsOct(h1) /\ IsOct(h2) ->
            <<((c - 48) * 64 + (h1 - 48) * 8 + (h2 - 48)) % 256, i + 3>>
       [] IsOct(c) /\ IsOct(h1) -> <<(c - 48) * 8 + (h1 - 48), i + 2>>
       [] IsOct(c) -> <<c - 48, i + 1>>
       [] OTHER -> <<c, i + 1>>

SetNode(s) == [k |-> "set", s |-> s]
Eps == [k |-> "eps"]
Cat(a, b) == IF a.k = "eps" THEN b ELSE IF b.k = "eps" THEN a ELSE [k |-> "cat", a |-> a, b |-> b]
Alt(a, b) == [k |-> "alt", a |-> a, b |-> b]
Star(a) == [k |-> "star", a |-> a]
Plus(a) == [k |-> "plus", a |-> a]
Opt(a) == Alt(a, Eps)

RECURSIVE Copies(_, _)
Copies(a, n) == IF n = 0 THEN Eps ELSE Cat(a, Copies(a, n - 1))
RECURSIVE UpTo(_, _)
UpTo(a, n) == IF n = 0 THEN Eps ELSE Opt(Cat(a, UpTo(a, n - 1)))
Repeat(a, lo, hi) == Cat(Copies(a, lo), UpTo(a, hi - lo))

(* One member of a class: its byte and the position after it. *)
Member(t, i) == IF Ch(t, i) = 92 THEN Escape(t, i + 1) ELSE <<Ch(t, i), i + 1>>

RECURSIVE ClassSet(_, _, _)
ClassSet(t, i, acc) ==
  IF Ch(t, i) = 93 \/ i > Len(t) THEN <<acc, i + 1>>
  ELSE LET m == Member(t, i)
           range == Ch(t, m[2]) = 45 /\ Ch(t, m[2] + 1) # 93
       IN IF range
          THEN LET e == Member(t, m[2] + 1) IN ClassSet(t, e[2], acc \cup (m[1]..e[1]))
          ELSE ClassSet(t, m[2], acc \cup {m[1]})

Class(t, i) ==       \* i is after the opening bracket
  LET neg == Ch(t, i) = 94
      r == ClassSet(t, IF neg THEN i + 1 ELSE i, {})
  IN <<SetNode(IF neg THEN (1..255) \ r[1] ELSE r[1]), r[2]>>

RECURSIVE Quoted(_, _, _)
Quoted(t, i, acc) ==
  IF Ch(t, i) = 34 \/ i > Len(t) THEN <<acc, i + 1>>
  ELSE Quoted(t, i + 1, Cat(acc, SetNode({Ch(t, i)})))

RECURSIVE Number(_, _, _)
Number(t, i, acc) == IF IsDig(Ch(t, i)) THEN Number(t, i + 1, acc * 10 + Ch(t, i) - 48) ELSE <<acc, i>>

RECURSIVE UpToBrace(_, _)
UpToBrace(t, i) == IF Ch(t, i) = 125 \/ i > Len(t) THEN i ELSE UpToBrace(t, i + 1)

EofMark == <<60, 60, 69, 79, 70, 62, 62>>
AtEof(t, i) == Len(t) >= i + 6 /\ SubSeq(t, i, i + 6) = EofMark

(* Defs: sequence of <<name, text>>; D is where the name is looked up. *)
RECURSIVE ReadAlt(_, _, _)
RECURSIVE ReadCat(_, _, _, _)
RECURSIVE Postfix(_, _, _)
RECURSIVE Atom(_, _, _)

Lookup(D, name) == D[CHOOSE k \in DOMAIN D : D[k][1] = name][2]

Atom(D, t, i) ==
  LET c == Ch(t, i)
  IN CASE AtEof(t, i) -> <<SetNode({0}), i + 7>>
       [] c = 40 -> LET r == ReadAlt(D, t, i + 1) IN <<r[1], r[2] + 1>>
       [] c = 91 -> Class(t, i + 1)
       [] c = 34 -> Quoted(t, i + 1, Eps)
       [] c = 46 -> <<SetNode((1..255) \ {10}), i + 1>>
       [] c = 92 -> LET e == Escape(t, i + 1) IN <<SetNode({e[1]}), e[2]>>
       [] c = 123 -> LET e == UpToBrace(t, i + 1)
                     IN <<ReadAlt(D, Lookup(D, SubSeq(t, i + 1, e - 1)), 1)[1], e + 1>>
       [] OTHER -> <<SetNode({c}), i + 1>>

Postfix(a, t, i) ==
  LET c == Ch(t, i)
  IN CASE c = 42 -> Postfix(Star(a), t, i + 1)
       [] c = 43 -> Postfix(Plus(a), t, i + 1)
       [] c = 63 -> Postfix(Opt(a), t, i + 1)
       [] c = 123 /\ IsDig(Ch(t, i + 1)) ->
            LET lo == Number(t, i + 1, 0)
                hi == IF Ch(t, lo[2]) = 44 THEN Number(t, lo[2] + 1, 0) ELSE lo
            IN Postfix(Repeat(a, lo[1], hi[1]), t, hi[2] + 1)
       [] OTHER -> <<a, i>>

ReadCat(D, t, i, acc) ==
  IF i > Len(t) \/ Ch(t, i) \in {124, 41} THEN <<acc, i>>
  ELSE LET a == Atom(D, t, i)
           p == Postfix(a[1], t, a[2])
       IN ReadCat(D, t, p[2], Cat(acc, p[1]))

ReadAlt(D, t, i) ==
  LET a == ReadCat(D, t, i, Eps)
  IN IF Ch(t, a[2]) = 124
     THEN LET b == ReadAlt(D, t, a[2] + 1) IN <<Alt(a[1], b[1]), b[2]>>
     ELSE a

Read(D, t) == ReadAlt(D, t, 1)[1]

(* ------------------------------- meaning ------------------------------- *)
(* Position automaton of a node whose positions are numbered from n + 1.   *)
(* fo holds the pairs p * Big + q with q able to follow p.                 *)
Big == 100000

Pairs(A, B) == {p * Big + q : p \in A, q \in B}

RECURSIVE Auto(_, _)
Auto(x, n) ==
  CASE x.k = "eps" -> [nul |-> TRUE, fi |-> {}, la |-> {}, fo |-> {}, se |-> <<>>, n |-> n]
    [] x.k = "set" -> [nul |-> FALSE, fi |-> {n + 1}, la |-> {n + 1}, fo |-> {}, se |-> <<x.s>>, n |-> n + 1]
    [] x.k = "cat" ->
         LET A == Auto(x.a, n)
             B == Auto(x.b, A.n)
         IN [nul |-> A.nul /\ B.nul,
             fi |-> IF A.nul THEN A.fi \cup B.fi ELSE A.fi,
             la |-> IF B.nul THEN A.la \cup B.la ELSE B.la,
             fo |-> A.fo \cup B.fo \cup Pairs(A.la, B.fi),
             se |-> A.se \o B.se, n |-> B.n]
    [] x.k = "alt" ->
         LET A == Auto(x.a, n)
             B == Auto(x.b, A.n)
         IN [nul |-> A.nul \/ B.nul, fi |-> A.fi \cup B.fi, la |-> A.la \cup B.la,
             fo |-> A.fo \cup B.fo, se |-> A.se \o B.se, n |-> B.n]
    [] OTHER ->      \* star, plus
         LET A == Auto(x.a, n)
         IN [nul |-> A.nul \/ x.k = "star", fi |-> A.fi, la |-> A.la,
             fo |-> A.fo \cup Pairs(A.la, A.fi), se |-> A.se, n |-> A.n]

Min(S) == CHOOSE x \in S : \A y \in S : x <= y

(* The patterns of one start condition together: R is a sequence of        *)
(* [id, text].  In position 0 nothing has been read.                       *)
RECURSIVE Together(_, _, _, _)
Together(D, R, i, n) ==
  IF i > Len(R) THEN <<>>
  ELSE LET A == Auto(Read(D, R[i].text), n) IN <<A>> \o Together(D, R, i + 1, A.n)

RECURSIVE Flat(_, _)
Flat(L, i) == IF i > Len(L) THEN <<>> ELSE L[i].se \o Flat(L, i + 1)

Condition(D, R) ==
  LET L == TLCEval(Together(D, R, 1, 0))
      se == TLCEval(Flat(L, 1))
      N == Len(se)
      all == TLCEval(UNION {L[i].fo : i \in DOMAIN L})
      start == UNION {L[i].fi : i \in DOMAIN L}
  IN [se |-> se, n |-> N,
      follow |-> TLCEval([p \in 0..N |-> IF p = 0 THEN start ELSE {q \in 1..N : (p * Big + q) \in all}]),
      ends |-> [i \in DOMAIN L |-> IF L[i].nul THEN L[i].la \cup {0} ELSE L[i].la],
      ids |-> [i \in DOMAIN L |-> R[i].id]]

(* One byte further; the first pattern matched, or -1. *)
Step(C, P, b) == {q \in UNION {C.follow[p] : p \in P} : b \in C.se[q]}
Matched(C, P) ==
  LET M == {C.ids[i] : i \in {j \in DOMAIN C.ends : C.ends[j] \cap P # {}}}
  IN IF M = {} THEN -1 ELSE Min(M)
=============================================================================
