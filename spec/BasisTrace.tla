------------------------------ MODULE BasisTrace ------------------------------
(* Validates recorded runs of the basis functions of real runs against Basis; total verdicts. *)
EXTENDS Basis, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, s, bad
vars == <<t, l, s, bad>>
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ s = BInit(Traces[t].cfg) /\ bad = {}
Cur == Traces[t].ev[l]
Next == /\ l <= Len(Traces[t].ev)
        /\ bad' = bad \cup {<<c, l>> : c \in BViol(s, Cur)}
        /\ s' = BStep(s, Cur)
        /\ l' = l + 1 /\ t' = t
        /\ (l = Len(Traces[t].ev)) => PrintT(<<"DONE", Traces[t].id, FALSE, bad'>>)
Spec == Init /\ [][Next]_vars
=============================================================================
