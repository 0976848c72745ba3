----------------------------- MODULE ExchangeMC -----------------------------
(* Design model of the exchange: the library removes the value, puts the controls, polls and reads; the outside world writes
   a value or something unreadable at once or in any later slot, for two requests.  Time advances in slots of half a second.  Every step
   emits the event of Exchange; Sound says that none of them is objected to.  Complete schedules are printed and replayed. *)
EXTENDS Exchange, TLC, Json
CONSTANTS MAXSLOT, SLOTS
VARIABLES pc, now, start, disk, ctl, s, bad, sched, plan, rnd
vars == <<pc, now, start, disk, ctl, s, bad, sched, plan, rnd>>
(* plan of one request: stale content, and the slot and content of the answer *)
Plan == [stale : 0..2, slot : 0..SLOTS, k : 1..2]
CFG == [max |-> 50 * MAXSLOT]
None == [k |-> 0, v |-> 0]
Init == /\ plan \in [1..2 -> Plan] /\ pc = "idle" /\ now = 0 /\ start = 0 /\ disk = None /\ ctl = 0 /\ rnd = 0
        /\ s = EInit(CFG) /\ bad = {} /\ sched = <<>>
Emit(e) == bad' = bad \cup EViol(s, e) /\ s' = EStep(s, e)
P == plan[rnd]
(* before the request an old value may be left in the folder *)
Stale == /\ pc = "idle" /\ rnd < 2 /\ rnd' = rnd + 1
         /\ LET p == plan[rnd + 1] IN
            IF p.stale > 0 THEN /\ disk' = [k |-> p.stale, v |-> 900 + rnd]
                                /\ Emit([e |-> "env", t |-> now, op |-> p.stale, v |-> 900 + rnd, seen |-> ctl])
            ELSE UNCHANGED <<disk, s, bad>>
         /\ pc' = "ask" /\ UNCHANGED <<now, start, ctl, sched, plan>>
Ask == /\ pc = "ask" /\ start' = now /\ pc' = "remove"
       /\ Emit([e |-> "req", c |-> rnd, t |-> now]) /\ UNCHANGED <<now, disk, ctl, sched, plan, rnd>>
Remove == pc = "remove" /\ disk' = None /\ pc' = "put" /\ UNCHANGED <<now, start, ctl, s, bad, sched, plan, rnd>>
Put == pc = "put" /\ ctl' = rnd /\ pc' = "seen" /\ UNCHANGED <<now, start, disk, s, bad, sched, plan, rnd>>
Answer == /\ disk' = [k |-> P.k, v |-> 10 * rnd]
          /\ Emit([e |-> "env", t |-> now, op |-> P.k, v |-> 10 * rnd, seen |-> ctl])
(* slot 0: the answer is there before the library does anything else *)
Fast == /\ pc = "seen" /\ pc' = "poll"
        /\ IF P.slot = 0 THEN Answer ELSE UNCHANGED <<disk, s, bad>>
        /\ UNCHANGED <<now, start, ctl, sched, plan, rnd>>
(* slot k: the answer comes in the k-th wait *)
Poll == /\ pc = "poll"
        /\ IF disk.k > 0 THEN pc' = "read" /\ UNCHANGED <<now, disk, s, bad, sched>>
           ELSE IF now - start >= CFG.max /\ now > start THEN pc' = "fail" /\ UNCHANGED <<now, disk, s, bad, sched>>
           ELSE /\ now' = now + 50 /\ pc' = "poll" /\ sched' = sched
                /\ IF (P.slot - 1) * 50 = now - start THEN Answer
                   ELSE disk' = disk /\ Emit([e |-> "look", t |-> now, seen |-> ctl])
        /\ UNCHANGED <<start, ctl, plan, rnd>>
Ret(ok, v) == Emit([e |-> "ret", t |-> now, ok |-> ok, v |-> v]) /\ pc' = "idle" /\ sched' = Append(sched, ok)
Read == /\ pc = "read" /\ IF disk.k = 1 THEN Ret(1, disk.v) ELSE Ret(0, 0)
        /\ UNCHANGED <<now, start, disk, ctl, plan, rnd>>
Fail == /\ pc = "fail" /\ Ret(0, 0) /\ UNCHANGED <<now, start, disk, ctl, plan, rnd>>
Next == Stale \/ Ask \/ Remove \/ Put \/ Fast \/ Poll \/ Read \/ Fail
Spec == Init /\ [][Next]_vars
Sound == bad = {}
Bounded == now - start <= CFG.max + 50
Fresh == \A i \in 1..Len(sched) : sched[i] = 1 => plan[i].k = 1 /\ (plan[i].slot - 1) * 50 < CFG.max
Answered == \A i \in 1..Len(sched) : (plan[i].k = 1 /\ (plan[i].slot - 1) * 50 < CFG.max) => sched[i] = 1
=============================================================================
