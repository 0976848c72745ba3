------------------------------ MODULE Exchange ------------------------------
(***************************************************************************)
(* File exchange of controls and figures of merit.  Times are in           *)
(* hundredths of a second.                                                 *)
(*   "req"  a set of controls c is handed over; t                          *)
(*   "env"  the outside world acts on the file of the value at t:          *)
(*          op 1 writes v, op 2 writes something unreadable, op 0 removes  *)
(*          it; seen: the controls in the exchange folder (0: unreadable   *)
(*          or incomplete)                                                 *)
(*   "look" the library waits; seen as above                               *)
(*   "ret"  t, ok (1: value v, 0: failure)                                 *)
(* cfg: max (longest waiting time).  The outside world acts inside a       *)
(* request as soon as the controls are in the folder, at the earliest      *)
(* before the library does its next step, or later while it waits.         *)
(***************************************************************************)
EXTENDS Integers, Sequences

EC(name, broken) == IF broken THEN {name} ELSE {}
GRACE == 110            \* polling every half second, reading a little later

(* file: [k (0 none, 1 value, 2 unreadable), v, t]; hist: what was written since the request *)
EInit(cfg) == [cfg |-> cfg, req |-> 0, t0 |-> 0, file |-> [k |-> 0, v |-> 0, t |-> 0], hist |-> <<>>, open |-> FALSE]
Waiting(s) == s.open
(* the file has been there, unchanged, for long enough to be noticed *)
Settled(s, t) == s.hist # <<>> /\ s.file.k > 0 /\ t - s.hist[1].t > GRACE

EViol(s, e) ==
  CASE e.e = "req" -> {}
    [] e.e = "env" -> EC("E_controls", s.open /\ e.seen # s.req)
    [] e.e = "look" -> EC("E_controls", s.open /\ e.seen # s.req)
                       \cup EC("E_forever", s.open /\ e.t - s.t0 > s.cfg.max + GRACE)
    [] e.e = "ret" ->
         LET w == s.hist
             late == e.t - s.t0 > s.cfg.max + GRACE
             vals == {w[i].v : i \in {i \in 1..Len(w) : w[i].k = 1}}
             bads == {i \in 1..Len(w) : w[i].k = 2}
         IN EC("E_stale", e.ok = 1 /\ e.v \notin vals)
            \cup EC("E_bound", late)
            \* a failure is either the end of the waiting time or an unreadable file
            \cup EC("E_early", e.ok = 0 /\ bads = {} /\ e.t - s.t0 < s.cfg.max)
            \cup EC("E_ignored", e.ok = 0 /\ bads = {} /\ w # <<>> /\ s.file.k = 1 /\ w[1].t - s.t0 < s.cfg.max - GRACE)
            \cup EC("E_unreadable", e.ok = 1 /\ vals = {})
            \* one readable value was written and nothing else: it is the one
            \cup EC("E_value", e.ok = 1 /\ Len(w) = 1 /\ w[1].k = 1 /\ e.v # w[1].v)
            \cup EC("E_slow", e.ok = 1 /\ w # <<>> /\ e.t - w[Len(w)].t > GRACE)
    [] e.e = "end" -> EC("X_crash", e.exc = 1)
                      \* the result of the optimization is the best of the values received
                      \cup EC("E_result", e.exc = 0 /\ e.whole = 1 /\ e.best # e.fom)
    [] OTHER -> {"unknown_event"}

EStep(s, e) ==
  CASE e.e = "req" -> [s EXCEPT !.req = e.c, !.t0 = e.t, !.hist = <<>>, !.open = TRUE]
    [] e.e = "env" -> [s EXCEPT !.file = [k |-> e.op, v |-> e.v, t |-> e.t],
                                !.hist = IF s.open /\ e.op > 0 THEN Append(@, [k |-> e.op, v |-> e.v, t |-> e.t]) ELSE @]
    [] e.e = "ret" -> [s EXCEPT !.open = FALSE]
    [] OTHER -> s
=============================================================================
