------------------------------ MODULE Lossless -------------------------------
(***************************************************************************)
(* C01: a recorded tree is a lossless picture of its input.  A record:     *)
(*   b    the input's bytes                                                *)
(*   ev   the tree in postorder: a leaf is <<kind, start, end, text>>, a   *)
(*        node <<kind, start, end, number of children>>; kinds matter only *)
(*        as WS (white space), CComment, LComment, Root, 0 (anything else) *)
(*   bad  how often the tree's own accessors contradict each other         *)
(* The tree is read leaf by leaf.  `pos` is where the text read so far     *)
(* ends, `open` the spans of the finished subtrees not yet in a node.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
WS == -1   CComment == -2   LComment == -3   Root == -4
White == {9, 10, 11, 12, 13, 32}
VARIABLES t, i, pos, open, v
vars == <<t, i, pos, open, v>>

IsLeaf(x) == Len(x) = 5          \* <<kind, start, end, text, 0>>
Text(d, s, e) == SubSeq(d.b, s + 1, e)

\* what is wrong with leaf x of record d when the text up to p has been read
LeafError(d, x, p) ==
    IF x[2] # p THEN "gap or overlap"
    ELSE IF x[3] <= x[2] THEN "empty leaf"
    ELSE IF x[3] > Len(d.b) THEN "leaf beyond the input"
    ELSE IF x[4] # Text(d, x[2], x[3]) THEN "leaf text differs from the input"
    ELSE IF x[1] = WS /\ \E k \in 1..Len(x[4]) : x[4][k] \notin White THEN "white space leaf with other bytes"
    ELSE IF x[1] = CComment /\ SubSeq(x[4], 1, 2) # <<47, 42>> THEN "block comment leaf with other text"
    ELSE IF x[1] = LComment /\ SubSeq(x[4], 1, 2) # <<45, 45>> THEN "line comment leaf with other text"
    ELSE IF x[1] \notin {WS, CComment, LComment} /\ \A k \in 1..Len(x[4]) : x[4][k] \in White
         THEN "white space in a leaf of another kind"
    ELSE ""

\* close the nodes that follow position j: <<next leaf's position, spans, error>>
RECURSIVE Close(_, _, _)
Close(d, j, o) ==
    IF j > Len(d.ev) THEN <<j, o, "">>
    ELSE IF IsLeaf(d.ev[j]) THEN <<j, o, "">>
    ELSE LET x == d.ev[j]
             n == x[4]
             m == Len(o)
         IN IF n > m THEN <<j, o, "child count">>
            ELSE IF n = 0
            THEN \* only the root of an empty input may be empty (with elided nodes kept, any node may be)
                 IF x[2] # x[3] THEN <<j, o, "childless node with text">>
                 ELSE Close(d, j + 1, Append(o, <<x[2], x[3]>>))
            ELSE IF x[2] # o[m - n + 1][1] \/ x[3] # o[m][2] THEN <<j, o, "node span is not that of its children">>
            ELSE IF \E k \in (m - n + 1)..(m - 1) : o[k][2] # o[k + 1][1] THEN <<j, o, "children are not adjacent">>
            ELSE Close(d, j + 1, Append(SubSeq(o, 1, m - n), <<x[2], x[3]>>))

Init == t \in 1..Len(Data) /\ i = 1 /\ pos = 0 /\ open = <<>> /\ v = "run"
Fail(w) == /\ PrintT(<<"MISMATCH", t, i, w, pos>>)
           /\ v' = "bad" /\ UNCHANGED <<t, i, pos, open>>
Finish(d) ==
    IF pos # Len(d.b) THEN Fail("text is missing at the end")
    ELSE IF Len(open) # 1 THEN Fail("not one root")
    ELSE IF open[1] # <<0, Len(d.b)>> THEN Fail("the root does not span the input")
    ELSE IF d.ev[Len(d.ev)][1] # Root THEN Fail("the root is of another kind")
    ELSE IF d.bad # 0 THEN Fail("accessors contradict each other")
    ELSE v' = "ok" /\ UNCHANGED <<t, i, pos, open>>
Read(d) ==
    IF i > Len(d.ev) THEN Finish(d)
    ELSE LET leaf == IsLeaf(d.ev[i])
             x == d.ev[i]
             w == IF leaf THEN LeafError(d, x, pos) ELSE ""
             c == IF leaf THEN Close(d, i + 1, Append(open, <<x[2], x[3]>>)) ELSE Close(d, i, open)
         IN IF w # "" THEN Fail(w)
            ELSE IF c[3] # "" THEN Fail(c[3])
            ELSE /\ i' = c[1] /\ open' = c[2] /\ pos' = IF leaf THEN x[3] ELSE pos
                 /\ UNCHANGED <<t, v>>
Next == \/ v = "run" /\ Read(Data[t])
        \/ v # "run" /\ UNCHANGED vars
\* a behaviour is determined by its record, so position and verdict identify a state
View == <<t, i, v>>
Spec == Init /\ [][Next]_vars
=============================================================================
