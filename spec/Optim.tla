------------------------------- MODULE Optim -------------------------------
(***************************************************************************)
(* The optimizer of QuOCS as a state machine over its observable events.   *)
(*                                                                         *)
(*   begin  the optimization starts (the clock of total_time_lim starts)   *)
(*   si     a direct search starts (one super-iteration of dCRAB)          *)
(*   ask    the direct search asks for the value of a point                *)
(*   eval   the user's figure of merit is evaluated (start and end)        *)
(*   ret    the value handed back to the direct search                     *)
(*   note   the direct search announces a drift-compensated best value     *)
(*   noted  ... and that announcement has been dealt with                  *)
(*   sie    the direct search returns (reason, number of requests)         *)
(*   stop   the user's stop request, given outside an evaluation           *)
(*   look   the best-controls file as it is at some moment in between      *)
(*   ctl / plot / msg   signals to a user interface                        *)
(*   end    the optimization is over; final results, files, getters        *)
(*                                                                         *)
(* Viol(s, e) is the set of the names of the clauses that event e breaks   *)
(* in state s; Step(s, e) is the state after e.  The design model          *)
(* (OptimMC) takes every event with Viol = {} and checks the properties    *)
(* on independent history variables; the trace specification (OptimTrace)  *)
(* walks recorded executions of the real code and collects the clauses     *)
(* they break.  Figures of merit are integers; internally every value is   *)
(* in "minimization units" (sgn * user value).                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

BIG == 999999999   \* projection of the library's 10**10
INF == 999999999   \* "no limit"
ODD == -777777777  \* a number the projection cannot represent
ODDLIM == 700000000

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
C(name, broken) == IF broken THEN {name} ELSE {}

RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE LET r == SumSeq(Tail(q)) IN
             IF Abs(r) >= ODDLIM \/ Abs(Head(q)) >= ODDLIM THEN BIG ELSE Head(q) + r
\* the mean; it is infinite if one of the values is
Mean(q) == LET t == SumSeq(q) IN IF Abs(t) >= ODDLIM THEN BIG ELSE t \div Len(q)
LastN(q, k) == SubSeq(q, Len(q) - k + 1, Len(q))
AllSame(q) == \A i \in 1..Len(q) : q[i] = q[1]

(***************************************************************************)
(* P(new better than record) compared with a re-evaluation level           *)
(* Phi(a/b): d = record mean - new mean, S = sum of the variances.         *)
(* -1: below the level, +1: above, 0: exactly on it, 2: too close to call. *)
(***************************************************************************)
ZCmp(d, S0, a, b) ==
  LET S == IF S0 = 0 THEN 1 ELSE S0
      m == IF a = 0 THEN 0 ELSE Min2((Abs(d) * b) \div Abs(a), 40000)
      mag == IF a = 0 THEN (IF d = 0 THEN 0 ELSE 1)
             ELSE IF d = 0 THEN -1
             ELSE IF (m + 2) * (m + 2) < S THEN -1
             ELSE IF m > 2 /\ (m - 2) * (m - 2) > S THEN 1
             ELSE 2
  IN CASE a = 0 -> (IF d > 0 THEN 1 ELSE IF d < 0 THEN -1 ELSE 0)
       [] a > 0 -> (IF d <= 0 THEN -1 ELSE mag)
       [] OTHER -> (IF d >= 0 THEN 1 ELSE IF mag = 2 THEN 2 ELSE -mag)

(* change-based stop: |slope of the last N values| * N < c *)
CbsHit(cfg, track) ==
  LET N == cfg.cbsn
      q == LastN(track, N)
      w(i) == 2 * (i - 1) - (N - 1)
      sw2 == (N * (N * N - 1)) \div 3
      dot == SumSeq([i \in 1..N |-> w(i) * q[i]])
  IN cfg.cbsn > 1 /\ Len(track) >= N /\ (\A i \in 1..N : Abs(q[i]) < ODDLIM) /\ 2 * N * Abs(dot) < cfg.cbsc * sw2

Init0(cfg) ==
  [ cfg |-> cfg, n |-> 0, tb |-> 0, begun |-> FALSE, ended |-> FALSE,
    stop |-> {},            \* "user", "fail": requests to stop that are in force
    sig |-> FALSE,          \* the user's request came as Ctrl+C
    grace |-> 0,            \* evaluations that may still start after an asynchronous request
    refused |-> FALSE,      \* a requested evaluation was not carried out
    has |-> FALSE, best |-> BIG, bsd |-> 0, bc |-> 0, bit |-> 0, bsi |-> 0,
    file |-> FALSE, ff |-> 0, ffk |-> TRUE, fc |-> 0, fit |-> 0, fsi |-> 0,
    old |-> [file |-> FALSE, ff |-> 0, ffk |-> TRUE, fc |-> 0, fit |-> 0, fsi |-> 0],   \* the file before the last evaluation
    k |-> 0, insi |-> FALSE, tsie |-> 0, ghit |-> FALSE, calls |-> 0, sit |-> 0, six |-> 0, warm |-> 0, sirec |-> 0, nask |-> 0,
    lit |-> 0, lt |-> 0, ldt |-> 0, newit |-> FALSE,
    inask |-> FALSE, ax |-> 0, ae |-> 0, open |-> FALSE, steps |-> <<>>, fs |-> <<>>, sds |-> <<>>, ac |-> 0,
    val |-> BIG, valid |-> FALSE, rets |-> <<>>, evt |-> <<>>, lastx |-> <<>>,
    dn |-> 0, ds |-> <<>>, dmin |-> BIG,
    track |-> <<>>, cbs |-> FALSE, cbst |-> FALSE,
    flist |-> <<>>, ilist |-> <<>>, nplot |-> 0, pf |-> 0, nctl |-> 0, lctl |-> 0, nmsg |-> 0,
    innote |-> FALSE, sies |-> 0, rlast |-> 0, dead |-> FALSE ]

Traced(s) == s.cfg.traced = 1

(* reasons for which a requested evaluation must not be started *)
Budget(s) == s.n >= s.cfg.maxtot
Goal(s) == s.cfg.hasgoal = 1 /\ s.has /\ s.best <= s.cfg.sgn * s.cfg.goal
\* a single measurement of a drift compensation reached the goal: the optimizer may stop although the mean did not
GoalHit(s) == Goal(s) \/ s.ghit
Time(s, t) == s.cfg.tlim # INF /\ t - s.tb >= s.cfg.tlim
UserStop(s) == "user" \in s.stop
FailStop(s) == "fail" \in s.stop
Causes(s, t) == C("budget", Budget(s)) \cup C("goal", GoalHit(s)) \cup C("time", Time(s, t)) \cup s.stop

(* where the next evaluation comes from: a drift measurement after a super-iteration, a repetition of the
   evaluation before it, or a new request *)
Mode(s) == IF s.cfg.alg \in {"dCRAB"} /\ Traced(s) /\ ~s.inask THEN "drift"
           ELSE IF s.open THEN "repeat" ELSE "new"

(* what belongs on the disk for the file fields f of a state *)
FileViol(s, f, d) ==
  IF f.file
  THEN C("K_missing", d.k = 0) \cup C("K_unreadable", d.k = 2)
       \cup IF d.k # 1 THEN {} ELSE
            C("K_fom", f.ffk /\ d.f # s.cfg.sgn * f.ff)
            \cup C("K_controls", d.c # f.fc)
            \cup C("K_iteration", d.it # f.fit)
            \cup C("K_si", Traced(s) /\ s.cfg.alg = "dCRAB" /\ d.si # f.fsi)
  ELSE C("K_phantom", d.k # 0)
DiskViol(s, d) == FileViol(s, s, d)
FileOf(s) == [file |-> s.file, ff |-> s.ff, ffk |-> s.ffk, fc |-> s.fc, fit |-> s.fit, fsi |-> s.fsi]
(* at any other moment it is the file of now or the one before it, never less *)
LookViol(s, d) == C("K_crash", DiskViol(s, d) # {} /\ FileViol(s, s.old, d) # {})

EvalViol(s, e) ==
  LET m == Mode(s)
      dgoal == m = "drift" /\ s.dn > 0   \* the reference value is being re-measured
  IN C("E_budget", Budget(s))
     \cup C("E_goal", Goal(s) /\ ~dgoal)
     \cup C("E_time", Time(s, e.t0))
     \cup C("E_user", UserStop(s) /\ s.grace = 0)
     \cup C("E_fail", FailStop(s))
     \cup C("E_before", ~s.begun) \cup C("E_after", s.ended)
     \cup C("E_repeatctl", m = "repeat" /\ e.c # s.ac)
     \cup C("E_extra", Traced(s) /\ s.inask /\ s.ae > 0 /\ ~s.open)
     \cup C("D_unexpected", m = "drift" /\ (s.cfg.dsi = 0 \/ s.k < 1 \/ s.insi))
     \cup C("D_toomany", m = "drift" /\ s.dn >= s.cfg.navg)
     \cup C("D_controls", m = "drift" /\ s.cfg.overwrite = 0 /\
                          e.c # (IF s.sirec # 0 THEN s.sirec ELSE s.warm))
     \cup C("W_warm", Traced(s) /\ m = "new" /\ s.k >= 2 /\ s.nask = 1 /\ s.ax = s.six
                      /\ s.cfg.overwrite = 0 /\ e.c # s.warm)
     \cup C("G_ctl", s.cfg.sig = 1 /\ (s.nctl # s.n + 1 \/ (s.lctl # e.c /\ s.lctl # -2)))
     \cup DiskViol(s, e.disk)

(* the state after an evaluation *)
Record(s, v, sd, c, it, si) ==
  [s EXCEPT !.has = TRUE, !.best = v, !.bsd = sd, !.bc = c, !.bit = it, !.bsi = si,
            !.file = TRUE, !.ff = v, !.ffk = TRUE, !.fc = c, !.fit = it, !.fsi = si,
            !.sirec = c]

EvalStep(s, e) ==
  LET v == s.cfg.sgn * e.f
      sd == IF e.sd < 0 THEN 1 ELSE e.sd
      m == Mode(s)
      ok == e.st = 0
      n1 == s.n + 1
      first == m # "repeat"
      fs == IF first THEN <<v>> ELSE Append(s.fs, v)
      sds == IF first THEN <<sd>> ELSE Append(s.sds, sd)
      steps == IF ~first THEN s.steps ELSE IF n1 = 1 THEN << <<0, 1>> >> ELSE s.cfg.reev
      j == Len(fs)
      mu == Mean(fs)
      sg == SumSeq(sds) \div j
      lv == IF j <= Len(steps) THEN steps[j] ELSE steps[Len(steps)]
      z == IF mu = BIG THEN (IF s.has THEN -1 ELSE 0) ELSE IF ~s.has THEN 1 ELSE ZCmp(s.best - mu, sg * sg + s.bsd * s.bsd, lv[1], lv[2])
      track == IF ok /\ s.cfg.cbsn > 1 THEN Append(s.track, v) ELSE s.track
      base == [s EXCEPT !.n = n1, !.ae = @ + 1, !.ac = e.c, !.lt = e.t, !.valid = ok,
                !.stop = @ \cup C("user", e.stop >= 1) \cup C("fail", ~ok),
                !.grace = Max2(0, IF UserStop(s) THEN @ - 1 ELSE @),
                !.track = track, !.cbs = @ \/ (ok /\ CbsHit(s.cfg, track)),
                !.evt = Append(@, e.t0),
                !.ilist = IF ok THEN Append(@, n1) ELSE @,
                !.flist = IF ok THEN Append(@, s.cfg.sgn * (IF s.cfg.hasre = 1 /\ m # "drift" THEN mu ELSE v)) ELSE @,
                !.pf = IF s.cfg.hasre = 1 /\ m # "drift" /\ s.cfg.alg = "dCRAB" THEN mu ELSE v,
                !.warm = IF s.k <= 1 /\ Traced(s) /\ @ = 0 /\ s.nask = 1 THEN e.c ELSE @]
  IN IF m = "drift"
     THEN LET ds == IF ok THEN Append(s.ds, v) ELSE s.ds
              b1 == [base EXCEPT !.ghit = @ \/ (ok /\ s.cfg.hasgoal = 1 /\ v <= s.cfg.sgn * s.cfg.goal),
                                 !.dn = @ + 1, !.ds = ds]
          IN IF ~ok THEN b1
             ELSE [Record(b1, SumSeq(ds) \div Len(ds), s.bsd, e.c, n1, s.k + 1)
                     EXCEPT !.ffk = (s.cfg.navg = 1), !.ff = v]
     ELSE IF ~ok THEN [base EXCEPT !.open = FALSE, !.val = IF j > 1 THEN s.val ELSE v]
     ELSE IF s.cfg.hasre = 0
     THEN LET b2 == [base EXCEPT !.val = v]
          IN IF v < s.best THEN Record(b2, v, s.bsd, e.c, n1, s.k) ELSE b2
     ELSE LET b3 == [base EXCEPT !.fs = fs, !.sds = sds, !.steps = steps, !.val = mu, !.dead = @ \/ z = 2,
                                 !.open = (j <= Len(steps) /\ z >= 0)]
          IN IF j > Len(steps) /\ z = 1 THEN Record(b3, mu, sg, e.c, n1, s.k) ELSE b3

(* a point of the direct search *)
NewIter(s, e) == e.it > s.lit /\ s.lit >= 1 /\ s.nask > 0
AskViol(s, e) ==
  C("W_first", s.nask = 0 /\ s.cfg.dsm # "DUMB" /\ e.x # s.six)
  \cup C("B_maxev", s.cfg.dsm # "DUMB" /\ NewIter(s, e) /\ s.calls >= s.cfg.maxev)
  \cup C("B_sitime", s.cfg.dsm # "DUMB" /\ NewIter(s, e) /\ s.cfg.stlim # INF /\ e.t - s.sit >= s.cfg.stlim)
  \cup C("B_userstop", s.cfg.dsm # "DUMB" /\ s.cfg.async = 0 /\ NewIter(s, e) /\ (s.refused \/ s.stop # {}))
  \cup C("B_change", (s.cfg.dsm = "NM" /\ s.cbs /\ e.it >= 1 /\ ~(s.cfg.dsec > 0 /\ e.x = s.ax)) \/ (s.cfg.dsm = "CMAES" /\ s.cbs /\ NewIter(s, e)))
  \cup C("D_missed", s.cfg.dsm = "NM" /\ s.cfg.dsec > 0 /\ NewIter(s, e) /\ s.lt - s.ldt >= s.cfg.dsec)
  \cup C("A_outside", ~s.insi)
AskStep(s, e) == [s EXCEPT !.inask = TRUE, !.ax = e.x, !.ae = 0, !.open = FALSE, !.calls = @ + 1, !.nask = @ + 1,
                           !.lit = e.it, !.fs = <<>>, !.sds = <<>>, !.valid = FALSE]

RetViol(s, e) ==
  LET why == Causes(s, e.t) IN
  IF s.ae = 0 THEN C("R_refused", why = {})
  ELSE IF s.open THEN C("R_short", why = {})
  ELSE C("R_value", s.stop \cap {"fail"} = {} /\ e.v # s.val)
RetStep(s, e) ==
  [s EXCEPT !.inask = FALSE, !.refused = @ \/ s.ae = 0 \/ s.open, !.open = FALSE,
            !.valid = IF s.ae = 0 \/ s.open THEN FALSE ELSE @,
            !.rets = Append(@, e.v), !.lastx = Append(@, s.ax)]

NoteViol(s, e) ==
  LET k == s.cfg.navg
      okn == Len(s.rets) >= k /\ Len(s.evt) >= k
  IN C("D_unexpected", s.cfg.dsec = 0)
     \cup C("D_average", s.cfg.dsec > 0 /\ s.valid /\ (~okn \/ Abs(e.v) >= ODDLIM \/ SumSeq(LastN(s.rets, k)) # k * e.v))
     \cup C("D_samepoint", s.cfg.dsec > 0 /\ (Len(s.lastx) < k \/ ~AllSame(LastN(s.lastx, k)) \/ e.x # s.lastx[Len(s.lastx)]))
     \cup C("D_early", s.cfg.dsec > 0 /\ s.cfg.hasre = 0 /\ s.valid /\ okn
                       /\ s.evt[Len(s.evt) - k + 1] - s.ldt < s.cfg.dsec)
NoteStep(s, e) ==
  IF s.valid
  THEN [Record(s, e.v, s.bsd, s.ac, s.n, s.k) EXCEPT !.ldt = e.t, !.calls = @ + 1]
  ELSE [s EXCEPT !.ldt = e.t, !.calls = @ + 1]

SiViol(s, e) ==
  C("S_count", s.k + 1 > s.cfg.nsi) \cup C("S_nested", s.insi)
  \cup C("S_stopped", s.cfg.async = 0 /\ s.k > 0 /\ (s.stop # {} /\ s.dn = 0))
  \cup C("S_refused", s.cfg.async = 0 /\ s.refused /\ s.dn = 0)
  \cup C("D_aftersi", s.cfg.alg = "dCRAB" /\ s.cfg.dsi = 1 /\ s.k >= 1 /\ s.dn # s.cfg.navg /\ Causes(s, e.t) = {})
SiStep(s, e) ==
  [s EXCEPT !.k = @ + 1, !.insi = TRUE, !.calls = 0, !.sit = IF s.k >= 1 THEN s.tsie ELSE e.t, !.ldt = e.t, !.six = e.x, !.nask = 0, !.lit = 0,
            !.warm = IF s.sirec # 0 THEN s.sirec ELSE @, !.sirec = 0,
            !.refused = @ \/ (s.k >= 1 /\ s.cfg.dsi = 1 /\ s.dn # s.cfg.navg), !.dn = 0, !.ds = <<>>,
            !.cbs = FALSE]

StopReal(s, t) == s.refused \/ s.stop # {}
SieViol(s, e) ==
  IF s.cfg.dsm = "DUMB" THEN {} ELSE
  C("X_maxev", e.r = 1 /\ s.calls < s.cfg.maxev)
  \cup C("X_tol", e.r \in {2, 3} /\ s.cfg.tol = 0)
  \cup C("X_sitime", e.r = 4 /\ (s.cfg.stlim = INF \/ e.t - s.sit < s.cfg.stlim))
  \cup C("X_change", e.r = 5 /\ ~s.cbs)
  \cup C("X_user", e.r = 6 /\ ~StopReal(s, e.t))
  \cup C("X_unknown", e.r \notin {1, 2, 3, 4, 5, 6})
  \cup C("X_hidden", s.cfg.async = 0 /\ StopReal(s, e.t) /\ e.r # 6)
  \cup C("X_calls", e.n # s.calls)
SieStep(s, e) == [s EXCEPT !.insi = FALSE, !.tsie = e.t, !.sies = @ + 1, !.rlast = e.r, !.dn = 0, !.ds = <<>>, !.track = <<>>]

Early(s, e) == s.cfg.alg \in {"dCRAB", "DS"} /\ Traced(s) /\ ~s.refused /\ s.stop = {} /\ s.sies # s.cfg.nsi

EndViol(s, e) ==
  LET stopped == s.refused \/ s.stop # {} IN
  IF e.exc # "" THEN C("F_crash_user", UserStop(s)) \cup C("F_crash_fail", FailStop(s))
                     \cup C("F_crash_limit", ~UserStop(s) /\ ~FailStop(s) /\ Causes(s, e.t) # {})
                     \cup C("F_crash", Causes(s, e.t) = {})
                     \cup C("F_runaway", e.exc \in {"runaway", "hang"})
                     \cup DiskViol(s, e.disk)
  ELSE
  C("F_result", e.res # 1)
  \cup C("F_fom", e.res = 1 /\ s.has /\ e.fom # s.cfg.sgn * s.best)
  \cup C("F_nofom", e.res = 1 /\ ~s.has /\ Abs(e.fom) # BIG)
  \cup C("F_count", e.res = 1 /\ e.n # -1 /\ e.n # s.n)
  \cup C("F_std", e.res = 1 /\ s.cfg.alg = "dCRAB" /\ s.cfg.hasre = 1 /\ s.has /\ e.sd # s.bsd)
  \cup C("F_best", s.has /\ s.cfg.overwrite = 0 /\ s.cfg.chk = 1 /\ e.best # s.bc)
  \cup C("F_params", s.has /\ s.cfg.alg = "DS" /\ e.par # s.bc)
  \cup C("F_lists", s.cfg.alg = "dCRAB" /\ Traced(s) /\ (e.npar # s.sies \/ e.nfreq # s.sies))
  \cup C("F_early", Early(s, e))
  \cup C("F_reason", s.cfg.alg \in {"dCRAB", "DS"} /\ Traced(s) /\ s.cfg.dsm # "DUMB" /\ s.sies > 0 /\ e.r # s.rlast)
  \cup C("H_budget", e.hr = 1 /\ ~Budget(s)) \cup C("H_goal", e.hr = 2 /\ ~GoalHit(s))
  \cup C("H_time", e.hr = 3 /\ ~Time(s, e.t)) \cup C("H_user", e.hr = 4 /\ ~s.sig)
  \cup C("H_unknown", e.hr = 99)
  \cup C("H_none", Traced(s) /\ s.refused /\ s.stop = {} /\ e.hr = 0)
  \cup C("H_run", stopped /\ e.run = 1)
  \cup C("H_norun", Traced(s) /\ ~stopped /\ Causes(s, e.t) = {} /\ e.run = 0 /\ s.cfg.async = 0)
  \cup C("L_fom", e.lists = 1 /\ e.flist # s.flist) \cup C("L_iter", e.lists = 1 /\ e.ilist # s.ilist)
  \cup C("G_plot", s.cfg.sig = 1 /\ s.cfg.async = 0 /\ s.nplot # Len(s.ilist))
  \cup C("G_start", s.cfg.sig = 1 /\ s.nmsg # 1)
  \cup DiskViol(s, e.disk)

(***************************************************************************)
Viol(s, e) ==
  IF s.dead THEN {} ELSE
  CASE e.e = "eval" -> EvalViol(s, e)
    [] e.e = "ask" -> AskViol(s, e)
    [] e.e = "ret" -> RetViol(s, e)
    [] e.e = "note" -> NoteViol(s, e)
    [] e.e = "si" -> SiViol(s, e)
    [] e.e = "sie" -> SieViol(s, e)
    [] e.e = "end" -> EndViol(s, e)
    [] e.e = "plot" -> C("G_plotit", e.it # s.n) \cup C("G_plotfom", Abs(e.f) # Abs(s.pf)) \cup C("G_plotsign", Abs(e.f) = Abs(s.pf) /\ e.f # s.cfg.sgn * s.pf)
    [] e.e = "msg" -> C("G_start", e.ok # 1 \/ s.n # 0)
    [] e.e = "look" -> LookViol(s, e.disk)
    [] OTHER -> {}

Step(s, e) ==
  CASE e.e = "eval" -> [EvalStep(s, e) EXCEPT !.sig = @ \/ e.stop = 2, !.old = FileOf(s)]
    [] e.e = "ask" -> AskStep(s, e)
    [] e.e = "ret" -> RetStep(s, e)
    [] e.e = "note" -> [NoteStep(s, e) EXCEPT !.old = FileOf(s)]
    [] e.e = "si" -> SiStep(s, e)
    [] e.e = "sie" -> SieStep(s, e)
    [] e.e = "begin" -> [s EXCEPT !.begun = TRUE, !.tb = e.t]
    [] e.e = "stop" -> [s EXCEPT !.stop = @ \cup {"user"}, !.grace = IF s.cfg.async = 1 THEN e.g ELSE 0]
    [] e.e = "end" -> [s EXCEPT !.ended = TRUE]
    [] e.e = "plot" -> [s EXCEPT !.nplot = @ + 1]
    [] e.e = "ctl" -> [s EXCEPT !.nctl = @ + 1, !.lctl = e.c]
    [] e.e = "msg" -> [s EXCEPT !.nmsg = @ + 1]
    [] OTHER -> s
=============================================================================
