------------------------------- MODULE Render --------------------------------
(***************************************************************************)
(* C20, C23: what the WebAssembly entry point returns, and what the        *)
(* command-line tool writes (cli = 1).  A record:                          *)
(*   r     "ok", "err", "rep", "syn": what the parser itself returns       *)
(*   pre   its tree in preorder: <<depth, kind, start, end, leaf, text>>   *)
(*   m, d, p, s, e   the parts of its error                                *)
(*   lines the text, split at its line ends, as bytes                      *)
(*   other bytes written to the stream that should stay empty              *)
(* A successful parse is rendered as one line per element, indented by two *)
(* spaces per level: Kind@start..end, and for a leaf its text as a Rust    *)
(* string literal, cut after 21 to 24 bytes if it has 25 or more.  Bytes   *)
(* above 127 stand for printable characters, which are not escaped.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
File == JsonDeserialize(IOEnv.TRACE)
Data == File.data
Kinds == File.kinds              \* kind number + 1 |-> its name, as bytes
VARIABLES t, i, v
vars == <<t, i, v>>

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
RECURSIVE Hex(_)
Hex(n) == LET h(x) == IF x < 10 THEN 48 + x ELSE 87 + x IN IF n < 16 THEN <<h(n)>> ELSE Append(Hex(n \div 16), h(n % 16))
EscapeByte(b) ==
    CASE b = 34 -> <<92, 34>>
      [] b = 92 -> <<92, 92>>
      [] b = 9  -> <<92, 116>>
      [] b = 10 -> <<92, 110>>
      [] b = 13 -> <<92, 114>>
      [] b = 0  -> <<92, 48>>
      [] (b < 32 /\ b \notin {0, 9, 10, 13}) \/ b = 127 -> <<92, 117, 123>> \o Hex(b) \o <<125>>
      [] OTHER  -> <<b>>
RECURSIVE Escape(_, _)
Escape(x, k) == IF k > Len(x) THEN <<>> ELSE EscapeByte(x[k]) \o Escape(x, k + 1)
Quote(x) == <<34>> \o Escape(x, 1) \o <<34>>
Boundary(x, k) == IF k = Len(x) THEN TRUE ELSE x[k + 1] \notin 128..191
Cut(x) == IF Len(x) < 25 THEN x
          ELSE LET c == CHOOSE k \in 21..24 : Boundary(x, k) /\ \A j \in 21..(k - 1) : ~Boundary(x, j)
               IN SubSeq(x, 1, c) \o <<32, 46, 46, 46>>
Element(x) == [n \in 1..(2 * x[1]) |-> 32] \o Kinds[x[2] + 1] \o <<64>> \o Digits(x[3]) \o <<46, 46>> \o Digits(x[4])
              \o (IF x[5] = 1 THEN <<32>> \o Quote(Cut(x[6])) ELSE <<>>)

Str(s) == File.text[s]           \* fixed pieces of the rendering, as bytes
ErrorText(d) == Str("error") \o
    (CASE d.r = "err" -> Str("scanerror") \o Quote(d.m) \o Str("close")
       [] d.r = "rep" -> Str("report") \o Quote(d.m) \o Str("detail") \o Quote(d.d) \o Str("position") \o Digits(d.p) \o Str("close2")
       [] OTHER -> Str("parseerror") \o Quote(d.m) \o Str("start") \o Digits(d.s) \o Str("end") \o Digits(d.e) \o Str("close"))

\* The command-line tool writes errors over several lines ("alternate" form).
Field(n, name, val) == [k \in 1..(4 * n) |-> 32] \o Str(name) \o val \o <<44>>
At(n, x) == [k \in 1..(4 * n) |-> 32] \o x
ErrorLines(d) ==
    CASE d.r = "err" -> <<Str("Scan"), Field(1, "message", Quote(d.m)), <<125>>>>
      [] d.r = "rep" -> <<Str("Report"), At(1, Str("Inner")), Field(2, "message", Quote(d.m)), Field(2, "detail_", Quote(d.d)),
                          Field(2, "position_", Digits(d.p)), At(1, <<125, 44>>), <<41>>>>
      [] OTHER -> <<Str("Parse"), Field(1, "message", Quote(d.m)), Field(1, "start_", Digits(d.s)), Field(1, "end_", Digits(d.e)), <<125>>>>
\* lines expected after those of the tree, or the whole error
Want(d) == IF d.cli = 1 THEN ErrorLines(d) ELSE <<ErrorText(d)>>
\* a tree's text ends with a line end, an error's does not; the tool adds one
AfterEnd(d) == (IF d.r = "ok" THEN <<<<>>>> ELSE <<>>) \o (IF d.cli = 1 THEN <<<<>>>> ELSE <<>>)

Init == t \in 1..Len(Data) /\ i = 1 /\ v = "run"
Fail(want, got) == PrintT(<<"MISMATCH", t, i, want, got>>) /\ v' = "bad" /\ UNCHANGED <<t, i>>
Line(d) ==
    LET last == IF d.r = "ok" THEN Len(d.pre) ELSE Len(Want(d))
        want == IF d.r = "ok" THEN Element(d.pre[i]) ELSE Want(d)[i]
    IN IF i > last
       THEN IF SubSeq(d.lines, last + 1, Len(d.lines)) = AfterEnd(d) /\ d.other = 0 THEN v' = "ok" /\ UNCHANGED <<t, i>>
            ELSE Fail(<<>>, <<Len(d.lines), d.other>>)
       ELSE IF i > Len(d.lines) THEN Fail(want, <<>>)
       ELSE IF d.lines[i] # want THEN Fail(want, d.lines[i])
       ELSE i' = i + 1 /\ UNCHANGED <<t, v>>
Next == \/ v = "run" /\ Line(Data[t])
        \/ v # "run" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
