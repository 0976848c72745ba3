----------------------------- MODULE OptimTrace -----------------------------
(* Validates recorded executions of the real optimizer against Optim.  One initial state per trace; every event of the
   trace is one step; the verdict is total: the clauses broken by the trace are printed, never a deadlock. *)
EXTENDS Optim, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES t, l, s, bad

vars == <<t, l, s, bad>>

Init == /\ t \in 1..Len(Traces)
        /\ l = 1
        /\ s = Init0(Traces[t].cfg)
        /\ bad = {}

Cur == Traces[t].ev[l]

Next == /\ l <= Len(Traces[t].ev)
        /\ LET v == Viol(s, Cur)
               seen == {b[1] : b \in bad}
           IN bad' = bad \cup {<<c, l>> : c \in v \ seen}
        /\ s' = Step(s, Cur)
        /\ l' = l + 1
        /\ t' = t
        /\ (l = Len(Traces[t].ev)) => PrintT(<<"DONE", Traces[t].id, s'.dead, bad'>>)

Spec == Init /\ [][Next]_vars
=============================================================================
