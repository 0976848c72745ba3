------------------------------ MODULE ToolsTrace ------------------------------
(* Validates recorded calls of the real tools against Tools; total verdicts. *)
EXTENDS Tools, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, bad
vars == <<t, l, bad>>
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ bad = {}
Cur == Traces[t].ev[l]
Next == /\ l <= Len(Traces[t].ev)
        /\ bad' = bad \cup {<<c, l>> : c \in TViol(Cur)}
        /\ l' = l + 1 /\ t' = t
        /\ (l = Len(Traces[t].ev)) => PrintT(<<"DONE", Traces[t].id, FALSE, bad'>>)
Spec == Init /\ [][Next]_vars
=============================================================================
