------------------------------ MODULE FoldersTrace ------------------------------
(* Validates recorded runs of the folders of real runs against Folders; total verdicts. *)
EXTENDS Folders, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, s, bad
vars == <<t, l, s, bad>>
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ s = FInit(Traces[t].cfg) /\ bad = {}
Cur == Traces[t].ev[l]
Next == /\ l <= Len(Traces[t].ev)
        /\ bad' = bad \cup {<<c, l>> : c \in FViol(s, Cur)}
        /\ s' = FStep(s, Cur)
        /\ l' = l + 1 /\ t' = t
        /\ (l = Len(Traces[t].ev)) => PrintT(<<"DONE", Traces[t].id, FALSE, bad'>>)
Spec == Init /\ [][Next]_vars
=============================================================================
