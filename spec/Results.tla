------------------------------ MODULE Results ------------------------------
(***************************************************************************)
(* The files of an optimization.  A file of controls is a sequence of      *)
(* entries [k |-> key, v |-> value]; the values are identified by          *)
(*   100 n + i      pulse i of evaluation n,                               *)
(*   100 n + 50 + j parameter j of evaluation n,                           *)
(*   -i             time grid of pulse i,                                  *)
(*   0              anything else (the entries of the meta data);          *)
(* a key occurs once for every control its value can be.                   *)
(* cfg: pn, qn (names of pulses and parameters).  Every evaluation of the  *)
(* recorded runs is better than the one before, so that the file after     *)
(* evaluation n has the controls of n.                                     *)
(*   "file"  ok, n, ent, meta [fom, it, st, pn, qn] (-1: absent),          *)
(*           f (the value given by the user), others (files of controls)   *)
(*   "settings" ok, given, read: entries as strings                        *)
(*   "results"  ok, fom, best                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

DC(name, broken) == IF broken THEN {name} ELSE {}
Rng(q) == {q[i] : i \in 1..Len(q)}
META == {"is_record", "FoM", "iteration_number", "super_it", "status_code", "sigma", "pulse_names", "parameter_names",
         "time_names", "file", "allow_pickle"}
GRID == "time_grid_for_"
StartsWith(k, n) == Len(k) >= Len(n) /\ SubSeq(k, 1, Len(n)) = n

Has(ent, k, v) == \E i \in 1..Len(ent) : ent[i].k = k /\ ent[i].v = v
Names(cfg) == cfg.pn \o cfg.qn
(* some name is used twice, or is the name of a time grid *)
AnyClash(cfg) ==
  LET a == Names(cfg) IN
  \/ \E i, j \in 1..Len(a) : i # j /\ a[i] = a[j]
  \/ \E i, j \in 1..Len(a) : a[i] = GRID \o a[j]
  \/ \E i \in 1..Len(a) : a[i] \in META
KeysOfPulse(cfg, n, ent, i) ==
  {k \in {ent[q].k : q \in 1..Len(ent)} : Has(ent, k, 100 * n + i) /\ StartsWith(k, cfg.pn[i]) /\ Has(ent, GRID \o k, -i)}
KeysOfPar(cfg, n, ent, j) ==
  {k \in {ent[q].k : q \in 1..Len(ent)} : Has(ent, k, 100 * n + 50 + j) /\ StartsWith(k, cfg.qn[j])}

DInit(cfg) == [cfg |-> cfg, n |-> 0]
DViol(s, e) ==
  CASE e.e = "file" ->
         IF e.ok = 0 THEN {"D_readable"}
         ELSE DC("D_pulse", \E i \in 1..Len(s.cfg.pn) : KeysOfPulse(s.cfg, e.n, e.ent, i) = {})
         \cup DC("D_param", \E j \in 1..Len(s.cfg.qn) : KeysOfPar(s.cfg, e.n, e.ent, j) = {})
         \cup DC("D_name", ~AnyClash(s.cfg) /\ ((\E i \in 1..Len(s.cfg.pn) : s.cfg.pn[i] \notin KeysOfPulse(s.cfg, e.n, e.ent, i))
                                               \/ (\E j \in 1..Len(s.cfg.qn) : s.cfg.qn[j] \notin KeysOfPar(s.cfg, e.n, e.ent, j))))
         \cup DC("D_extra", \E q \in 1..Len(e.ent) : e.ent[q].v > 0 /\ e.ent[q].v \div 100 # e.n)
         \cup DC("D_fom", e.meta.fom # e.f) \cup DC("D_number", e.meta.it # e.n) \cup DC("D_status", e.meta.st # 0)
         \cup DC("D_names", e.meta.pn # s.cfg.pn \/ e.meta.qn # s.cfg.qn)
         \cup DC("D_single", e.others # 0)
    [] e.e = "settings" -> IF e.ok = 0 THEN {"D_settings_readable"}
                           ELSE DC("D_settings", ~(Rng(e.given) \subseteq Rng(e.read)))
    [] e.e = "results" -> IF e.ok = 0 THEN {"D_results_readable"} ELSE DC("D_results", e.fom # e.best)
    [] e.e = "end" -> DC("X_crash", e.exc = 1)
    [] OTHER -> {"unknown_event"}
DStep(s, e) == IF e.e = "file" THEN [s EXCEPT !.n = e.n] ELSE s
=============================================================================
