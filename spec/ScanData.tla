------------------------------ MODULE ScanData -------------------------------
(* The keywords of the pinned PostgreSQL release: Keywords[n][k] lists the *)
(* ones with n letters whose first is the k-th of the alphabet, as pairs   *)
(* <<bytes, token>>.                                                       *)
EXTENDS Sequences, Integers, Json, IOUtils, TLC
Keywords == JsonDeserialize(IOEnv.SPECDATA \o "/keywords_bytes.json")
\* the token of a lower-case word, "IDENT" if it is no keyword
KeywordToken(w) ==
    IF Len(w) > Len(Keywords) \/ w[1] \notin 97..122 THEN "IDENT"
    ELSE LET ks == Keywords[Len(w)][w[1] - 96]
             hit == {i \in 1..Len(ks) : ks[i][1] = w}
         IN IF hit = {} THEN "IDENT" ELSE ks[CHOOSE i \in hit : TRUE][2]
=============================================================================
