----------------------------- MODULE LockTrace -----------------------------
(* Pairs of recorded runs of the real optimizer, validated against Lockstep. *)
EXTENDS Lockstep, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, s, bad
vars == <<t, l, s, bad>>
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ s = LInit /\ bad = {}
Cur == Traces[t].ev[l]
Next == /\ l <= Len(Traces[t].ev)
        /\ bad' = bad \cup {<<c, l>> : c \in LViol(s, Traces[t].cfg.rel, Cur.a, Cur.b) \ {b[1] : b \in bad}}
        /\ s' = LStep(s, Cur.a, Cur.b)
        /\ l' = l + 1 /\ t' = t
        /\ (l = Len(Traces[t].ev)) => PrintT(<<"DONE", Traces[t].id, FALSE, bad'>>)
Spec == Init /\ [][Next]_vars
=============================================================================
