------------------------------- MODULE ScanMC --------------------------------
(***************************************************************************)
(* Properties of the scanner specification itself, for every input over a  *)
(* small alphabet up to a length: it always stops, never moves backwards,  *)
(* its tokens are ordered, disjoint, not empty and inside the input, what  *)
(* lies between them is white space, and scanning is insensitive to white  *)
(* space at the end.                                                       *)
(***************************************************************************)
EXTENDS Scanner
CONSTANTS Alphabet, MaxLen
VARIABLES s, c, toks
vars == <<s, c, toks>>
Strings == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Init == s \in Strings /\ c = Start(s) /\ toks = <<>>
Next == \/ /\ ~Stopped(c)
           /\ c' = Step(s, c)
           /\ toks' = IF IsToken(c'.out) THEN Append(toks, c'.out) ELSE toks
           /\ UNCHANGED s
        \/ Stopped(c) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ordered == \A i \in 1..Len(toks) :
              /\ toks[i][2] < toks[i][3] /\ toks[i][3] <= c.pos
              /\ i > 1 => toks[i - 1][3] <= toks[i][2]
EndOf(i) == IF i = 0 THEN 0 ELSE toks[i][3]
Tiled == c.out = <<"END">> =>
            /\ \A i \in 1..Len(toks) : \A p \in EndOf(i - 1)..(toks[i][2] - 1) : B(s, p) \in Space
            /\ \A p \in EndOf(Len(toks))..(Len(s) - 1) : B(s, p) \in Space
\* an error stops the scan for good
Final == Stopped(c) => c.out # <<>> /\ ~IsToken(c.out)
\* a newline appended to an input that scans changes nothing
Trailing == c.out = <<"END">> => Scan(s \o <<10>>) = <<toks, c.out>>
Monotone == [][c'.pos >= c.tok \/ Stopped(c')]_vars
Terminates == <>Stopped(c)
=============================================================================
