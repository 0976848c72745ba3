------------------------------ MODULE CmaesTrace ------------------------------
(* Validates recorded runs of the real CMA-ES search against Cmaes; total verdicts. *)
EXTENDS Cmaes, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, s, bad
vars == <<t, l, s, bad>>
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ s = CInit(Traces[t].cfg) /\ bad = {}
Cur == Traces[t].ev[l]
Next == /\ l <= Len(Traces[t].ev)
        /\ bad' = bad \cup {<<c, l>> : c \in CViol(s, Cur)}
        /\ s' = CStep(s, Cur)
        /\ l' = l + 1 /\ t' = t
        /\ (l = Len(Traces[t].ev)) => PrintT(<<"DONE", Traces[t].id, s'.dead, bad'>>)
Spec == Init /\ [][Next]_vars
=============================================================================
