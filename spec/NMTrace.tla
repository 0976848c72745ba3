------------------------------ MODULE NMTrace ------------------------------
(* Validates recorded runs of the real Nelder-Mead search against NMSearch; total verdicts. *)
EXTENDS NMSearch, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, s, bad
vars == <<t, l, s, bad>>
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ s = NInit(Traces[t].cfg) /\ bad = {}
Cur == Traces[t].ev[l]
Next == /\ l <= Len(Traces[t].ev)
        /\ bad' = bad \cup {<<c, l>> : c \in NViol(s, Cur)}
        /\ s' = NStep(s, Cur)
        /\ l' = l + 1 /\ t' = t
        /\ (l = Len(Traces[t].ev)) => PrintT(<<"DONE", Traces[t].id, s'.dead, bad'>>)
Spec == Init /\ [][Next]_vars
=============================================================================
