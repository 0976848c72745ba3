------------------------------ MODULE NMSearch ------------------------------
(***************************************************************************)
(* The Nelder-Mead search as a state machine over the function calls it    *)
(* makes.  Coordinates are integers (thousandths), values are integers.    *)
(* The specification is nondeterministic in the order of vertices with     *)
(* equal values, so the state keeps the set of all simplices which agree   *)
(* with the calls made so far (subset construction).                       *)
(*                                                                         *)
(* A candidate is [sim, f: sorted vertices and values, ph: the move that   *)
(* is under way, k: vertex being asked for, xr, fr: reflected point].      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

BIG == 999999999      \* the value of an evaluation which failed
NAbs(x) == IF x < 0 THEN -x ELSE x
NC(name, broken) == IF broken THEN {name} ELSE {}

(* coefficients in units of 1/(4 dim) *)
Q(cfg) == 4 * cfg.dim
CHI(cfg) == IF cfg.adaptive = 1 THEN 4 * cfg.dim + 8 ELSE 8 * cfg.dim
PSI(cfg) == IF cfg.adaptive = 1 THEN 3 * cfg.dim - 2 ELSE 2 * cfg.dim
SIG(cfg) == IF cfg.adaptive = 1 THEN 4 * cfg.dim - 4 ELSE 2 * cfg.dim

RECURSIVE ColSum(_, _, _)
ColSum(sim, j, n) == IF n = 0 THEN 0 ELSE sim[n][j] + ColSum(sim, j, n - 1)

(* the point the method prescribes, multiplied by M, as a sequence of integers *)
Target(cfg, c) ==
  LET d == cfg.dim
      q == Q(cfg)
      S(j) == ColSum(c.sim, j, d)
      w(j) == c.sim[d + 1][j]
  IN CASE c.ph = "reflect" -> [M |-> d, x |-> [j \in 1..d |-> 2 * S(j) - d * w(j)], tol |-> 4 * d]
       [] c.ph = "expand" -> [M |-> q * d, x |-> [j \in 1..d |-> (q + CHI(cfg)) * S(j) - CHI(cfg) * d * w(j)],
                              tol |-> d * (2 * q + 2 * CHI(cfg))]
       [] c.ph = "outside" -> [M |-> q * d, x |-> [j \in 1..d |-> (q + PSI(cfg)) * S(j) - PSI(cfg) * d * w(j)],
                               tol |-> d * (2 * q + 2 * CHI(cfg))]
       [] c.ph = "inside" -> [M |-> q * d, x |-> [j \in 1..d |-> (q - PSI(cfg)) * S(j) + PSI(cfg) * d * w(j)],
                              tol |-> d * (2 * q + 2 * CHI(cfg))]
       [] c.ph = "shrink" -> [M |-> q, x |-> [j \in 1..d |-> q * c.sim[1][j] + SIG(cfg) * (c.sim[c.k][j] - c.sim[1][j])],
                              tol |-> 4 * q]
       [] c.ph = "start" -> [M |-> 1, x |-> cfg.start[c.k], tol |-> 1]
       [] OTHER -> [M |-> 1, x |-> c.sim[1], tol |-> 1]          \* "drift", "note": the best vertex again

Match(cfg, c, x) == LET t == Target(cfg, c) IN
  \A j \in 1..cfg.dim : NAbs(t.M * x[j] - t.x[j]) <= t.tol

(* all ways to sort vertices by value *)
RECURSIVE SortedPerms(_, _)
SortedPerms(f, S) == IF S = {} THEN {<<>>}
                     ELSE UNION {{<<i>> \o q : q \in SortedPerms(f, S \ {i})} : i \in {i \in S : \A j \in S : f[i] <= f[j]}}
RECURSIVE Insert(_, _, _), StableOrder(_, _)
Insert(f, q, i) ==      \* q: indices sorted by f; put i behind all entries which are not larger
  IF q = <<>> THEN <<i>>
  ELSE IF f[Head(q)] <= f[i] THEN <<Head(q)>> \o Insert(f, Tail(q), i) ELSE <<i>> \o q
StableOrder(f, n) == IF n = 0 THEN <<>> ELSE Insert(f, StableOrder(f, n - 1), n)
Distinct(f) == \A i, j \in 1..Len(f) : i # j => f[i] # f[j]
Orders(f) == IF Distinct(f) THEN {StableOrder(f, Len(f))} ELSE SortedPerms(f, 1..Len(f))
Resort(c) == {[c EXCEPT !.sim = [i \in 1..Len(c.f) |-> c.sim[p[i]]], !.f = [i \in 1..Len(c.f) |-> c.f[p[i]]],
                        !.ph = "reflect", !.k = 0] : p \in Orders(c.f)}

Fresh(d) == [sim |-> <<>>, f |-> <<>>, ph |-> "start", k |-> 1, xr |-> <<>>, fr |-> 0, end |-> FALSE, it |-> 0,
             dsum |-> 0, dn |-> 0]

(* after an iteration: sorted, counted; `end' marks the boundary *)
EndIter(c) == {[r EXCEPT !.end = TRUE, !.it = @ + 1] : r \in Resort(c)}
Accept(c, d, x, f) == EndIter([c EXCEPT !.sim[d + 1] = x, !.f[d + 1] = f])

(* the candidate after the value f of the point x *)
Value(cfg, c0, x, f) ==
  LET c == [c0 EXCEPT !.end = FALSE]
      d == cfg.dim
      shrink == [c EXCEPT !.ph = "shrink", !.k = 2]
  IN CASE c.ph = "start" ->
            LET c1 == [c EXCEPT !.sim = Append(@, x), !.f = Append(@, f), !.k = @ + 1]
            IN IF c1.k > d + 1 THEN {[r EXCEPT !.it = 1] : r \in Resort(c1)} ELSE {c1}
       [] c.ph = "reflect" ->
            IF f < c.f[1] THEN {[c EXCEPT !.ph = "expand", !.xr = x, !.fr = f]}
            ELSE IF f < c.f[d] THEN Accept(c, d, x, f)
            ELSE IF f < c.f[d + 1] THEN {[c EXCEPT !.ph = "outside", !.xr = x, !.fr = f]}
            ELSE {[c EXCEPT !.ph = "inside", !.xr = x, !.fr = f]}
       [] c.ph = "expand" -> IF f < c.fr THEN Accept(c, d, x, f) ELSE Accept(c, d, c.xr, c.fr)
       [] c.ph = "outside" -> IF f <= c.fr THEN Accept(c, d, x, f) ELSE {shrink}
       [] c.ph = "inside" -> IF f < c.f[d + 1] THEN Accept(c, d, x, f) ELSE {shrink}
       [] c.ph = "shrink" ->
            LET c1 == [c EXCEPT !.sim[c.k] = x, !.f[c.k] = f, !.k = @ + 1]
            IN IF c1.k > d + 1 THEN EndIter(c1) ELSE {c1}
       [] OTHER -> {c}

(***************************************************************************)
(* State of the search: cands, dead (out of the representable range), the  *)
(* counters and the clock.                                                 *)
(***************************************************************************)
NInit(cfg) == [cfg |-> cfg, cands |-> {Fresh(cfg.dim)}, dead |-> FALSE, calls |-> 0, t |-> 0, ldt |-> 0, drift |-> 0,
               dsum |-> 0, all |-> <<>>]

(* three-valued stop conditions at an iteration boundary: 1 holds, 0 does not, 2 too close to call *)
RECURSIVE SumF(_), SumSq(_)
SumF(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumF(Tail(q))
SumSq(q) == IF q = <<>> THEN 0 ELSE Head(q) * Head(q) + SumSq(Tail(q))
MaxDist(c) == LET D == {NAbs(c.sim[i][j] - c.sim[1][j]) : i \in 2..Len(c.sim), j \in 1..Len(c.sim[1])}
              IN CHOOSE m \in D : \A x \in D : x <= m
XTol(cfg, c) == IF cfg.xatol = 0 THEN (IF MaxDist(c) <= 2 THEN 2 ELSE 0)
                ELSE IF MaxDist(c) <= cfg.xatol - 2 THEN 1 ELSE IF MaxDist(c) >= cfg.xatol + 2 THEN 0 ELSE 2
FTol(cfg, c) ==
  LET n == Len(c.f)
      g == [i \in 1..n |-> c.f[i] - c.f[1]]
      small == \A i \in 1..n : NAbs(g[i]) <= 4000
      v == n * SumSq(g) - SumF(g) * SumF(g)
      b == n * n * cfg.fatol * cfg.fatol
  IN IF ~small \/ \E i \in 1..n : c.f[i] >= BIG THEN 0 ELSE IF v = 0 THEN 1 ELSE IF v < b THEN 1 ELSE IF v > b THEN 0 ELSE 2
Reasons(s, c, e) ==
  [r \in {1, 2, 3, 4, 6} |->
     CASE r = 1 -> IF s.calls >= s.cfg.maxev THEN 1 ELSE 0
       [] r = 2 -> XTol(s.cfg, c)
       [] r = 3 -> FTol(s.cfg, c)
       [] r = 4 -> IF s.cfg.tlim > 0 /\ e.t >= s.cfg.tlim THEN 1 ELSE 0
       [] r = 6 -> IF s.cfg.cbn > 0 /\ s.calls >= s.cfg.cbn THEN 1 ELSE 0]
MustStop(s, c, e) == \E r \in {1, 2, 3, 4, 6} : Reasons(s, c, e)[r] = 1
MayStop(s, c, e) == \E r \in {1, 2, 3, 4, 6} : Reasons(s, c, e)[r] # 0

(* drift compensation is due at the boundary before the stop conditions are looked at *)
DriftDue(s, c) == s.cfg.dsec > 0 /\ c.end /\ s.t - s.ldt >= s.cfg.dsec

(* what has to be true of a candidate so that it can make the call e *)
Boundary(s, c, e) == c.end => ~MustStop(s, c, [t |-> s.t])
Before(s, c) == IF DriftDue(s, c) /\ s.drift = 0 THEN [c EXCEPT !.ph = "drift"] ELSE c

NViol(s, e) ==
  IF s.dead THEN {} ELSE
  CASE e.e = "call" ->
         LET cs == {IF s.drift > 0 THEN c ELSE Before(s, c) : c \in s.cands}
             ok == {c \in cs : Match(s.cfg, c, e.x)}
             go == {c \in ok : c.ph \in {"drift", "note"} \/ Boundary(s, c, e)}
             kind == IF e.note = 1 THEN {c \in go : c.ph = "note"} ELSE {c \in go : c.ph # "note"}
         IN IF ok = {} THEN {"M_" \o c.ph : c \in cs}
            ELSE IF go = {} THEN {"M_goeson"}
            ELSE IF kind = {} THEN {"M_note"}
            ELSE NC("M_iteration", \A c \in kind : e.it # c.it - (IF c.ph \in {"drift", "note"} THEN 1 ELSE 0))
                 \cup NC("M_notevalue", e.note = 1 /\ \A c \in kind : e.nv # c.f[1])
    [] e.e = "end" ->
         LET cs == s.cands
             atend == {c \in cs : c.end /\ ~DriftDue(s, c)}
             fin == {c \in atend : MayStop(s, c, e)}
             good == {c \in fin : e.f = c.f[1] /\ \A j \in 1..s.cfg.dim : NAbs(e.x[j] - c.sim[1][j]) <= 1}
         IN IF e.exc = 1 THEN {"R_crash"}
            ELSE IF s.drift > 0 THEN {"M_drift"}
            ELSE IF atend = {} THEN {"R_middle"}
            ELSE IF fin = {} THEN {"R_early"}
            ELSE NC("R_best", good = {})
                 \cup NC("R_iterations", \A c \in fin : e.nit # c.it - 1)
                 \cup NC("R_calls", e.n # s.calls)
                 \cup NC("R_reason", \A c \in fin : ~(e.r \in {1, 2, 3, 4, 6} /\ Reasons(s, c, e)[e.r] # 0))
                 \cup NC("R_user", s.cfg.cbn > 0 /\ s.calls >= s.cfg.cbn /\ e.r # 6)
                 \cup NC("R_mutated", e.mut = 1)
    [] e.e = "oor" -> {}
    [] OTHER -> {"unknown_event"}

NStep(s, e) ==
  IF s.dead \/ NViol(s, e) # {} THEN [s EXCEPT !.dead = TRUE] ELSE
  CASE e.e = "oor" -> [s EXCEPT !.dead = TRUE]
    [] e.e = "call" ->
         LET cs == {IF s.drift > 0 THEN c ELSE Before(s, c) : c \in s.cands}
             ok == {c \in cs : Match(s.cfg, c, e.x) /\ (c.ph \in {"drift", "note"} \/ Boundary(s, c, e))
                               /\ (c.ph = "note") = (e.note = 1)}
             isdrift == \E c \in ok : c.ph = "drift"
             k == s.cfg.navg
         IN IF e.note = 1
            THEN [s EXCEPT !.calls = @ + 1, !.drift = 0, !.t = e.t, !.ldt = e.t,
                           !.cands = {[c EXCEPT !.ph = "reflect"] : c \in ok}]
            ELSE IF isdrift
            THEN LET n == s.drift + 1
                     ds == (IF s.drift = 0 THEN 0 ELSE s.dsum) + e.f
                     shifted(c) == LET new == ds \div k IN
                        [c EXCEPT !.ph = "note", !.f = [i \in 1..Len(c.f) |-> IF i = 1 THEN new ELSE c.f[i] + (new - c.f[1])]]
                 IN [s EXCEPT !.calls = @ + 1, !.t = e.t, !.drift = n, !.dsum = ds,
                              !.cands = {IF n = k THEN shifted(c) ELSE c : c \in {c \in ok : c.ph = "drift"}}]
            ELSE [s EXCEPT !.calls = @ + 1, !.t = e.t, !.all = Append(@, e.f),
                           !.cands = UNION {Value(s.cfg, c, e.x, e.f) : c \in ok}]
    [] OTHER -> s
=============================================================================
