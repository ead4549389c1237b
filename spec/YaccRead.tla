------------------------------ MODULE YaccRead ------------------------------
(* Reads grammar files and writes down what they say (input of LalrMC). *)
EXTENDS Yacc, Json, IOUtils
Files == JsonDeserialize(IOEnv.TRACE)
VARIABLE u
Init == u = 0
Next == u < Len(Files) /\ u' = u + 1 /\ PrintT(<<"GRAMMAR", u', YFile(Files[u'])>>)
Spec == Init /\ [][Next]_u
=============================================================================
