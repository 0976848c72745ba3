------------------------------- MODULE Cmaes -------------------------------
(***************************************************************************)
(* The generation protocol of CMA-ES.  Coordinates are integers (tenths).  *)
(* The points of a generation are mean + A z with the drawn vector z; A is *)
(* not specified after the first generation (there it is diag(sv)), but a  *)
(* zero draw shows the mean itself, which must be the weighted             *)
(* recombination of the best half of the generation before.                *)
(*                                                                         *)
(* cfg: dim, pop (0: default), x0, sv (widths), maxev, fatol, tlim, cbn.                *)
(* Event "call": x, it, f, t, z (drawn vector in quarters, <<>> unknown).  *)
(***************************************************************************)
EXTENDS Integers, Sequences

(* recombination weights log(mu + 1/2) - log(i), normalized, in 1/10000 *)
WEIGHTS == << <<10000>>, <<8042, 1958>>, <<6370, 2846, 784>>, <<5299, 2857, 1429, 415>>,
              <<4563, 2708, 1622, 852, 255>>, <<4024, 2534, 1662, 1044, 564, 172>>,
              <<3611, 2369, 1642, 1127, 727, 400, 124>>, <<3284, 2221, 1598, 1157, 814, 535, 298, 93>> >>
(* the default population, 4 + floor(3 ln N), by dimension *)
DEFAULT == <<4, 6, 7, 8, 8, 9, 9, 10>>
Pop(cfg) == IF cfg.pop = 0 THEN DEFAULT[cfg.dim] ELSE cfg.pop
CC(name, broken) == IF broken THEN {name} ELSE {}
BIG == 999999999      \* the value of an evaluation which failed
CAbs(v) == IF v < 0 THEN -v ELSE v
RECURSIVE CSum(_), CSumSq(_)
CSum(q) == IF q = <<>> THEN 0 ELSE Head(q) + CSum(Tail(q))
CSumSq(q) == IF q = <<>> THEN 0 ELSE Head(q) * Head(q) + CSumSq(Tail(q))
SetMax(S) == CHOOSE m \in S : \A x \in S : x <= m
SetMin(S) == CHOOSE m \in S : \A x \in S : m <= x

Mu(cfg) == Pop(cfg) \div 2
(* position of rank r, for distinct values *)
RankOf(f, i) == 1 + Len(SelectSeq([j \in 1..Len(f) |-> f[j] < f[i]], LAMBDA b : b))
AtRank(f, r) == CHOOSE i \in 1..Len(f) : RankOf(f, i) = r
Distinct(f) == \A i, j \in 1..Len(f) : i # j => f[i] # f[j]
(* the recombined mean, in 1/10000 of the unit; only for distinct values and a known weight table *)
Recombined(cfg, pts, f) == [j \in 1..cfg.dim |->
  CSum([r \in 1..Mu(cfg) |-> WEIGHTS[Mu(cfg)][r] * pts[AtRank(f, r)][j]])]
Slack(cfg, pts) == [j \in 1..cfg.dim |->
  LET S == {pts[i][j] : i \in 1..Len(pts)} IN 3 + (Mu(cfg) * (SetMax(S) - SetMin(S))) \div 10000]

CInit(cfg) == [cfg |-> cfg, g |-> 1, pts |-> <<>>, f |-> <<>>, zz |-> <<>>, calls |-> 0, t |-> 0, dead |-> FALSE, first |-> cfg.x0,
               mean |-> [j \in 1..cfg.dim |-> 10000 * cfg.x0[j]], slack |-> [j \in 1..cfg.dim |-> 1], known |-> TRUE,
               end |-> FALSE, lf |-> <<>>, lpts |-> <<>>]

FTol(cfg, f) ==
  LET n == Len(f)
      h == [i \in 1..n |-> f[i] - f[1]]
      v == n * CSumSq(h) - CSum(h) * CSum(h)
      b == n * n * cfg.fatol * cfg.fatol
  IN IF \E i \in 1..n : CAbs(h[i]) > 4000 \/ f[i] >= BIG THEN 0 ELSE IF v = 0 \/ v < b THEN 1 ELSE IF v > b THEN 0 ELSE 2
Why(s, t) == [r \in {1, 3, 4, 6} |->
  CASE r = 1 -> IF s.calls >= s.cfg.maxev THEN 1 ELSE 0
    [] r = 3 -> FTol(s.cfg, s.lf)
    [] r = 4 -> IF s.cfg.tlim > 0 /\ t >= s.cfg.tlim THEN 1 ELSE 0
    [] r = 6 -> IF s.cfg.cbn > 0 /\ s.calls >= s.cfg.cbn THEN 1 ELSE 0]
Must(s, t) == \E r \in {1, 3, 4, 6} : Why(s, t)[r] = 1
May(s, t) == \E r \in {1, 3, 4, 6} : Why(s, t)[r] # 0

Zero(z) == z # <<>> /\ \A j \in 1..Len(z) : z[j] = 0
(* all draws of a generation are multiples of (1, ..., 1): its points lie on a straight line, spaced like the draws *)
Along(z) == z # <<>> /\ \A j \in 1..Len(z) : z[j] = z[1]
OffLine(s, x, z) ==
  LET k == Len(s.pts) + 1
      P == Append(s.pts, x)
      D == Append(s.zz, IF s.calls = 0 THEN [j \in 1..s.cfg.dim |-> 0] ELSE z)
  IN /\ k >= 3
     /\ \A i \in 1..k : Along(D[i])
     /\ \E b \in 2..(k - 1) : \E j \in 1..s.cfg.dim :
          LET d1 == D[1][1] - D[b][1]
              d2 == D[b][1] - D[k][1]
          IN CAbs((P[1][j] - P[b][j]) * d2 - (P[b][j] - P[k][j]) * d1) > CAbs(d1) + CAbs(d2)
Near(s, x) == \A j \in 1..s.cfg.dim : CAbs(10000 * x[j] - s.mean[j]) <= 10000 * s.slack[j]

CViol(s, e) ==
  IF s.dead THEN {} ELSE
  CASE e.e = "call" ->
         IF s.end /\ Must(s, s.t) THEN {"P_goeson"}
         ELSE CC("P_first", s.calls = 0 /\ e.x # s.cfg.x0)
              \cup CC("P_generation", e.it # s.g)
              \cup CC("P_mean", s.calls > 0 /\ Zero(e.z) /\ s.known /\ ~Near(s, e.x))
              \cup CC("P_line", OffLine(s, e.x, e.z))
              \cup CC("P_width", s.g = 1 /\ s.calls > 0 /\ e.z # <<>>
                        /\ \E j \in 1..s.cfg.dim : CAbs(4 * (e.x[j] - s.cfg.x0[j]) - s.cfg.sv[j] * e.z[j]) > 4)
    [] e.e = "end" ->
         IF e.exc = 1 THEN {"R_crash"}
         ELSE IF ~s.end THEN {"R_middle"}
         ELSE IF ~May(s, e.t) THEN {"R_early"}
         ELSE LET best == {i \in 1..Len(s.lf) : \A j \in 1..Len(s.lf) : s.lf[i] <= s.lf[j]}
              IN CC("R_best", \A i \in best : ~(e.f = s.lf[i] /\ \A j \in 1..s.cfg.dim : CAbs(e.x[j] - s.lpts[i][j]) <= 1))
                 \cup CC("R_calls", e.n # s.calls)
                 \cup CC("R_iterations", e.nit \notin {s.g - 1, s.g})
                 \cup CC("R_reason", ~(e.r \in {1, 3, 4, 6} /\ Why(s, e.t)[e.r] # 0))
                 \cup CC("R_user", s.cfg.cbn > 0 /\ s.calls >= s.cfg.cbn /\ e.r # 6)
                 \cup CC("R_mutated", e.mut = 1)
    [] e.e = "oor" -> {}
    [] OTHER -> {"unknown_event"}

CStep(s, e) ==
  IF s.dead \/ e.e = "oor" THEN [s EXCEPT !.dead = TRUE]
  ELSE IF e.e # "call" THEN s
  ELSE LET pts == Append(s.pts, e.x)
           f == Append(s.f, e.f)
           full == Len(f) = Pop(s.cfg)
           zz == Append(s.zz, IF s.calls = 0 THEN [j \in 1..s.cfg.dim |-> 0] ELSE e.z)
       IN IF ~full THEN [s EXCEPT !.pts = pts, !.f = f, !.zz = zz, !.calls = @ + 1, !.t = e.t, !.end = FALSE]
          ELSE [s EXCEPT !.pts = <<>>, !.f = <<>>, !.zz = <<>>, !.lpts = pts, !.lf = f, !.calls = @ + 1, !.t = e.t, !.end = TRUE,
                         !.g = @ + 1, !.known = Distinct(f) /\ Mu(s.cfg) <= Len(WEIGHTS),
                         !.mean = IF Distinct(f) /\ Mu(s.cfg) <= Len(WEIGHTS) THEN Recombined(s.cfg, pts, f) ELSE s.mean,
                         !.slack = Slack(s.cfg, pts)]
=============================================================================
