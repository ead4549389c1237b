------------------------------ MODULE Keywords ------------------------------
(* The keywords the scanner looks up are those of the pinned list, with their terminals. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
T == JsonDeserialize(IOEnv.TRACE)
ASSUME TLCSet(1, TLCEval([have |-> {T.have[i] : i \in DOMAIN T.have}, want |-> {T.want[i] : i \in DOMAIN T.want}]))
K == TLCGet(1)
Wrong == K.have \ K.want
Missing == K.want \ K.have
VARIABLE u
Init == u \in {<<"WRONG", x>> : x \in Wrong} \cup {<<"MISSING", x>> : x \in Missing} \cup {<<"done", "">>}
Next == FALSE /\ UNCHANGED u
Spec == Init /\ [][Next]_u
Report == u[1] = "done" \/ PrintT(u)
=============================================================================
