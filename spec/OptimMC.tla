------------------------------ MODULE OptimMC ------------------------------
(***************************************************************************)
(* Design model of the optimizer: the control flow of a dCRAB run (super-  *)
(* iterations, drift compensation between them, re-evaluation, limits,     *)
(* stops, the best-controls file), with a direct search that asks for a    *)
(* fixed number of points, against every behaviour of the user within the  *)
(* bounds: each evaluation returns one of VALS, succeeds, fails, or the    *)
(* user stops during it.                                                   *)
(*                                                                         *)
(* Every step emits the event of Optim it would be observed as.  Sound     *)
(* says that Optim objects to none of them, also not when the run is the   *)
(* maximization of the negative (Mirrored: the observer ends in the same   *)
(* state); the other invariants state the properties on the history of the *)
(* evaluations h alone.  Complete runs are printed with their outcome;     *)
(* they are replayed into the real code, whose outcome must be the same.   *)
(***************************************************************************)
EXTENDS Optim, TLC, Json, IOUtils
CONSTANTS VALS, U
VARIABLES cf, pc, lib, s, mi, h, bad      \* mi: the observer of the mirrored run
vars == <<cf, pc, lib, s, mi, h, bad>>

Confs == JsonDeserialize(IOEnv.CONFS_FILE)       \* the configurations to be explored

HALF == <<0, 1>>                       \* the level 0.5
Cfg(c) == [alg |-> "dCRAB", sgn |-> 1, maxtot |-> c.maxtot, hasgoal |-> c.hasgoal, goal |-> 0, tlim |-> c.tlim, nsi |-> c.nsi,
           hasre |-> IF c.re > 0 THEN 1 ELSE 0, reev |-> [i \in 1..c.re |-> HALF], maxev |-> INF, stlim |-> INF,
           dsi |-> IF c.navg > 0 THEN 1 ELSE 0, dsec |-> 0, navg |-> IF c.navg > 0 THEN c.navg ELSE 1, dsm |-> "DUMB", traced |-> 1,
           cbsn |-> 0, cbsc |-> 0, sig |-> 0, async |-> 0, overwrite |-> 0, tol |-> 0, chk |-> 1]
NoDisk == [k |-> 0, f |-> 0, it |-> 0, si |-> 0, c |-> 0]
Lib0 == [k |-> 0, i |-> 0, n |-> 0, t |-> 0, run |-> TRUE, hr |-> 0, best |-> BIG, bsd |-> 0, bc |-> 0, warm |-> 1, rec |-> 0,
         j |-> 0, sum |-> 0, valid |-> FALSE, drift |-> FALSE, dn |-> 0, dsum |-> 0, val |-> BIG, c |-> 1, disk |-> NoDisk,
         flist |-> <<>>, ilist |-> <<>>, sies |-> 0]

Init == /\ cf \in 1..Len(Confs) /\ pc = "begin" /\ lib = Lib0 /\ s = Init0(Cfg(Confs[cf])) /\ mi = Init0([Cfg(Confs[cf]) EXCEPT !.sgn = -1]) /\ h = <<>> /\ bad = {}
K == Confs[cf]
(* the same event in the maximization of the negative figure of merit *)
Mir(e) == CASE e.e = "eval" -> [e EXCEPT !.f = -e.f, !.disk.f = -e.disk.f]
            [] e.e = "end" -> [e EXCEPT !.fom = -e.fom, !.disk.f = -e.disk.f, !.flist = [q \in 1..Len(e.flist) |-> -e.flist[q]]]
            [] OTHER -> e
Emit(e) == /\ bad' = bad \cup Viol(s, e) \cup Viol(mi, Mir(e))
           /\ s' = Step(s, e) /\ mi' = Step(mi, Mir(e))
Quiet == UNCHANGED <<s, mi, bad>>
Same == UNCHANGED <<cf, h>>

Begin == pc = "begin" /\ pc' = "loop" /\ Emit([e |-> "begin", t |-> 0]) /\ UNCHANGED lib /\ Same

(* the main loop over the super-iterations *)
Loop == /\ pc = "loop" /\ Quiet /\ Same
        /\ IF lib.k >= K.nsi \/ ~lib.run THEN pc' = "end" /\ UNCHANGED lib
           ELSE /\ lib' = [lib EXCEPT !.k = @ + 1, !.dn = 0, !.dsum = 0, !.drift = (K.navg > 0 /\ lib.k >= 1), !.j = 0, !.c = lib.warm]
                /\ pc' = IF K.navg > 0 /\ lib.k >= 1 THEN "routine" ELSE "si"

Si == /\ pc = "si" /\ pc' = "next" /\ lib' = [lib EXCEPT !.i = 0, !.drift = FALSE, !.rec = 0]
      /\ Emit([e |-> "si", t |-> lib.t, x |-> lib.k * 10]) /\ Same
Next_ == /\ pc = "next" /\ Same
         /\ IF lib.i >= K.asks \/ (lib.i > 0 /\ ~lib.run)
            THEN /\ pc' = "loop" /\ Emit([e |-> "sie", t |-> lib.t, r |-> 99, n |-> lib.i])
                 /\ lib' = [lib EXCEPT !.sies = @ + 1, !.warm = IF lib.rec # 0 THEN lib.rec ELSE @]
            ELSE /\ pc' = "routine"
                 /\ Emit([e |-> "ask", t |-> lib.t, x |-> lib.k * 10 + lib.i, it |-> lib.i])
                 /\ lib' = [lib EXCEPT !.i = @ + 1, !.j = 0, !.sum = 0, !.val = BIG,
                                       !.c = IF lib.i = 0 THEN lib.warm ELSE lib.k * 10 + lib.i]

(* one call of the figure of merit routine: the limits first *)
Limits == LET a == lib.n >= K.maxtot
              b == K.hasgoal = 1 /\ lib.best <= 0
              c == K.tlim # INF /\ lib.t >= K.tlim
          IN [hr |-> IF c THEN 3 ELSE IF b THEN 2 ELSE IF a THEN 1 ELSE lib.hr, run |-> lib.run /\ ~a /\ ~b /\ ~c]
Routine == /\ pc = "routine" /\ Quiet /\ Same
           /\ lib' = [lib EXCEPT !.run = Limits.run, !.hr = Limits.hr, !.valid = FALSE]
           /\ pc' = IF Limits.run THEN "eval" ELSE "refused"
Refused == /\ pc = "refused" /\ Same /\ Quiet
           /\ IF lib.drift THEN pc' = "drifted" /\ UNCHANGED lib
              ELSE pc' = "ret" /\ UNCHANGED lib

(* the user: value f, status st, stop *)
Store(l, f) == [l EXCEPT !.disk = [k |-> 1, f |-> f, it |-> l.n, si |-> l.k, c |-> l.c]]
Eval == /\ pc = "eval"
        /\ \E f \in VALS, act \in {"", "fail", "stop"} :
             LET v == f * U
                 st == IF act = "fail" THEN -1 ELSE 0
                 l1 == [lib EXCEPT !.n = @ + 1, !.t = @ + 2, !.valid = (st = 0), !.run = @ /\ act = ""]
                 \* the running mean is what is reported
                 mean == (lib.sum + v) \div (lib.j + 1)
                 l2 == IF st # 0 THEN l1
                       ELSE [l1 EXCEPT !.flist = Append(@, IF K.re > 0 /\ ~lib.drift THEN mean ELSE v), !.ilist = Append(@, l1.n)]
                 l3 == IF st # 0 THEN l2
                       ELSE IF lib.drift THEN [Store(l2, v) EXCEPT !.dn = @ + 1, !.dsum = @ + v,
                                                                \* a better single measurement counts for the goal at once
                                                                !.best = IF K.re = 0 /\ v < @ THEN v ELSE @]
                       ELSE IF K.re = 0 /\ v < lib.best THEN [Store(l2, v) EXCEPT !.best = v, !.bc = lib.c, !.rec = lib.c]
                       ELSE l2
             IN /\ h' = Append(h, [f |-> f, act |-> act, c |-> lib.c, k |-> lib.k, drift |-> lib.drift, j |-> lib.j])
                /\ Emit([e |-> "eval", t |-> l1.t, t0 |-> lib.t, c |-> lib.c, f |-> v, sd |-> -1, st |-> st,
                         stop |-> IF act = "stop" THEN 1 ELSE 0, disk |-> lib.disk])
                /\ lib' = IF lib.drift \/ K.re > 0 THEN [l3 EXCEPT !.val = IF lib.j = 0 THEN v ELSE @] ELSE [l3 EXCEPT !.val = v]
                /\ pc' = IF lib.drift THEN (IF st = 0 /\ l3.dn < K.navg THEN "routine" ELSE "drifted")
                         ELSE IF K.re = 0 \/ st # 0 THEN "ret" ELSE "decide"
        /\ UNCHANGED cf

Drifted == /\ pc = "drifted" /\ pc' = "si" /\ Quiet /\ Same
           /\ lib' = IF lib.dn = 0 THEN lib ELSE [lib EXCEPT !.best = lib.dsum \div lib.dn]

(* re-evaluation: the last evaluation was valid *)
Steps == IF lib.n = 1 THEN 1 ELSE K.re
Decide == /\ pc = "decide" /\ Quiet /\ Same
          /\ LET j == lib.j + 1
                 sum == lib.sum + h[Len(h)].f * U
                 mu == sum \div j
                 \* the number of steps is fixed by the first evaluation of the point
                 steps == IF lib.n - lib.j = 1 THEN 1 ELSE K.re
                 lb == [lib EXCEPT !.j = j, !.sum = sum, !.val = mu]
             IN IF j <= steps
                THEN /\ lib' = lb /\ pc' = IF mu <= lib.best THEN "routine" ELSE "ret"
                ELSE /\ pc' = "ret"
                     /\ lib' = IF mu < lib.best
                               THEN [Store(lb, mu) EXCEPT !.best = mu, !.bsd = 1, !.bc = lib.c, !.rec = lib.c] ELSE lb

Ret == /\ pc = "ret" /\ pc' = "next" /\ Same /\ UNCHANGED lib
       /\ Emit([e |-> "ret", t |-> lib.t, v |-> lib.val])

Outcome == [fom |-> lib.best, n |-> lib.n, hr |-> lib.hr, run |-> IF lib.run THEN 1 ELSE 0, sies |-> lib.sies, sd |-> lib.bsd,
            flist |-> lib.flist, ilist |-> lib.ilist, dk |-> lib.disk.k, df |-> lib.disk.f, di |-> lib.disk.it, ds |-> lib.disk.si]
End == /\ pc = "end" /\ pc' = "over" /\ Same /\ UNCHANGED lib
       /\ Emit([e |-> "end", t |-> lib.t, exc |-> "", disk |-> lib.disk, fom |-> lib.best, n |-> lib.n, sd |-> lib.bsd, r |-> 99,
                hr |-> lib.hr, best |-> lib.bc, npar |-> lib.sies, nfreq |-> lib.sies, par |-> -3, res |-> 1,
                run |-> IF lib.run THEN 1 ELSE 0, lists |-> 1, flist |-> lib.flist, ilist |-> lib.ilist])
       /\ PrintT("RUN " \o ToJson(<<cf, [q \in 1..Len(h) |-> <<h[q].f, h[q].act>>], Outcome>>))
Next == Begin \/ Loop \/ Si \/ Next_ \/ Routine \/ Refused \/ Eval \/ Drifted \/ Decide \/ Ret \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(***************************************************************************)
(* The properties, on the history of the evaluations.                      *)
(***************************************************************************)
Over == pc = "over"
Good == {q \in 1..Len(h) : h[q].act # "fail"}
Plain == K.re = 0 /\ K.navg = 0
LowestOf(S) == CHOOSE m \in {h[q].f : q \in S} : \A q \in S : m <= h[q].f
Sound == bad = {}
\* the observer does not distinguish the directions
Mirrored == [mi EXCEPT !.cfg.sgn = 1, !.flist = [q \in 1..Len(mi.flist) |-> -mi.flist[q]]] = s
Reported == Over /\ Plain => lib.best = (IF Good = {} THEN BIG ELSE U * LowestOf(Good))
NothingMeasured == Over /\ Good = {} => lib.best = BIG /\ lib.disk.k = 0
\* the reported mean is one of really measured groups
Measured == Over /\ lib.best # BIG =>
  \E a, b \in 1..Len(h) : a <= b /\ (\A q \in a..b : q \in Good /\ h[q].c = h[a].c)
                          /\ U * SumSeq([q \in 1..(b - a + 1) |-> h[a + q - 1].f]) = lib.best * (b - a + 1)
Budgeted == Len(h) <= K.maxtot /\ lib.n = Len(h)
LastStop == \A q \in 1..Len(h) : h[q].act # "" => q = Len(h)
NoEvalPastGoal == K.hasgoal = 1 /\ Plain => \A q \in 1..(Len(h) - 1) : h[q].f > 0
Timed == K.tlim # INF => Len(h) <= (K.tlim + 1) \div 2
FileHolds == Plain /\ Good # {} => lib.disk.k = 1 /\ lib.disk.f = U * LowestOf(Good)
                                   /\ (\E q \in Good : h[q].f = LowestOf(Good) /\ lib.disk.it = q /\ lib.disk.c = h[q].c
                                                       /\ \A p \in Good : p < q => h[p].f > h[q].f)
\* the first evaluation of every later super-iteration is made with the best controls so far
WarmStart == Plain => \A q \in 2..Len(h) : h[q].k > h[q - 1].k =>
                LET before == {p \in Good : p < q} IN
                before # {} => \E p \in before : h[p].c = h[q].c /\ \A r \in before : h[r].f >= h[p].f
AllDone == Over /\ lib.hr = 0 /\ lib.run => lib.sies = K.nsi
TrueReason == Over => /\ (lib.hr = 1 => Len(h) >= K.maxtot)
                      /\ (lib.hr = 2 /\ Plain => K.hasgoal = 1 /\ \E q \in Good : h[q].f <= 0)
                      /\ (lib.hr = 3 => K.tlim # INF /\ 2 * Len(h) >= K.tlim)
                      /\ (~lib.run /\ lib.hr = 0 => \E q \in 1..Len(h) : h[q].act # "")
Repeats == K.re > 0 => \A q \in 2..Len(h) : h[q].j > 0 => h[q].c = h[q - 1].c /\ h[q].j = h[q - 1].j + 1 /\ h[q].j <= K.re
Lists == Over => lib.ilist = SelectSeq([q \in 1..Len(h) |-> q], LAMBDA q : q \in Good)
Drifts == \A q \in 1..Len(h) : h[q].drift => K.navg > 0 /\ h[q].k >= 2 /\ Cardinality({p \in 1..Len(h) : h[p].drift /\ h[p].k = h[q].k}) <= K.navg
Ends == <>(pc = "over")
=============================================================================
