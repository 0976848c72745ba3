------------------------------ MODULE GradientTrace ------------------------------
(* Validates recorded runs of the real gradient algorithms against Gradient; total verdicts. *)
EXTENDS Gradient, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, s, bad
vars == <<t, l, s, bad>>
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ s = GInit(Traces[t].cfg) /\ bad = {}
Cur == Traces[t].ev[l]
Next == /\ l <= Len(Traces[t].ev)
        /\ bad' = bad \cup {<<c, l>> : c \in GViol(s, Cur)}
        /\ s' = GStep(s, Cur)
        /\ l' = l + 1 /\ t' = t
        /\ (l = Len(Traces[t].ev)) => PrintT(<<"DONE", Traces[t].id, FALSE, bad'>>)
Spec == Init /\ [][Next]_vars
=============================================================================
