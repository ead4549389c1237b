------------------------------ MODULE FlexRead ------------------------------
(* Reads a flex file and writes down what it says about matching (input of PatternMC). *)
EXTENDS FlexFile, Json, IOUtils
Text == JsonDeserialize(IOEnv.TRACE)
ASSUME TLCSet(1, TLCEval(FlexFile(TLCEval(Text))))
F == TLCGet(1)
VARIABLE k
Init == k = 0 /\ PrintT(<<"HEAD", F.states, F.defs>>)
Next == k < Len(F.rules) /\ k' = k + 1 /\ PrintT(<<"RULE", k', F.rules[k'].states, F.rules[k'].pat, F.rules[k'].own>>)
Spec == Init /\ [][Next]_k
=============================================================================
