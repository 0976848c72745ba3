------------------------------ MODULE Gradient ------------------------------
(***************************************************************************)
(* What GRAPE and AD hand to the gradient search.                          *)
(*                                                                         *)
(* cfg: alg 0 GRAPE, 1 AD; fac 1 / -1 minimization / maximization; pulses: *)
(* [bins, guess: value per bin, sc: scaling factor]; np parameters (start  *)
(* values par).  GRAPE: rho, target, B integer matrices.                   *)
(* AD: pulses carry their limits lo, hi (and plim: those of parameters);   *)
(* coef[i][b] = <<c, q>> and pcoef[j] = <<c, q>>: the figure of merit      *)
(* is sum c v + q v^2 over pulse values and parameters, plus cross times   *)
(* the product of the first pulse value and the last parameter / value.    *)
(*   "si"   a search starts with the settings opt (configured: cfg.opt)    *)
(*          [tolerances of value and gradient, steps per line search,      *)
(*          evaluations]                                                   *)
(*   "ask"  the search asks for x (one vector of integers)                 *)
(*   "prop" GRAPE: the user's propagators are asked for: p = controls,     *)
(*          us = the propagators handed out (scaled matrices)              *)
(*   "eval" the figure of merit is evaluated: p, r = controls, f (user's)  *)
(*   "ret"  the search obtained f (hf = 1) and g (hg = 1, in 10^-4; GRAPE: *)
(*          divided by the duration of a slice)                            *)
(*   "end"                                                                 *)
(***************************************************************************)
EXTENDS Quantum

GC(name, broken) == IF broken THEN {name} ELSE {}
NoF == 999999999
Bins(cfg, i) == cfg.pulses[i].bins
RECURSIVE Off(_, _), GSum(_)
Off(cfg, i) == IF i = 1 THEN 0 ELSE Off(cfg, i - 1) + Bins(cfg, i - 1)
GSum(q) == IF q = <<>> THEN 0 ELSE Head(q) + GSum(Tail(q))
NPul(cfg) == Len(cfg.pulses)
NX(cfg) == Off(cfg, NPul(cfg)) + Bins(cfg, NPul(cfg)) + Len(cfg.par)
Clip(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
(* values of pulse i for the coefficients x on top of base, before and after the limits *)
RawPulse(cfg, base, x, i) == [b \in 1..Bins(cfg, i) |->
  cfg.pulses[i].sc * (cfg.pulses[i].guess[b] + base[Off(cfg, i) + b] + x[Off(cfg, i) + b])]
PulseOf(cfg, base, x, i) == LET raw == RawPulse(cfg, base, x, i)
                            IN [b \in 1..Bins(cfg, i) |-> Clip(raw[b], cfg.pulses[i].lo, cfg.pulses[i].hi)]
Pulses(cfg, base, x) == [i \in 1..NPul(cfg) |-> PulseOf(cfg, base, x, i)]
RawParams(cfg, x) == [j \in 1..Len(cfg.par) |-> x[NX(cfg) - Len(cfg.par) + j]]
Params(cfg, x) == [j \in 1..Len(cfg.par) |-> Clip(RawParams(cfg, x)[j], cfg.plim[j][1], cfg.plim[j][2])]
(* which coefficients move their control: 1 inside the limits, 0 outside, 2 exactly at a limit (one-sided derivatives differ) *)
Pass(v, lo, hi) == IF v = lo \/ v = hi THEN 2 ELSE IF v < lo \/ v > hi THEN 0 ELSE 1

GInit(cfg) == [cfg |-> cfg, base |-> [k \in 1..NX(cfg) |-> 0], x |-> <<>>, us |-> <<>>, f |-> 0, ev |-> 0, prop |-> 0, si |-> 0,
               best |-> NoF, bx |-> [k \in 1..NX(cfg) |-> 0], tot |-> 0]

(* GRAPE: forward and backward propagation; every entry a scaled matrix *)
Push(u, r) == SMul(SMul(u, r), SDag(u))
Pull(u, r) == SMul(SMul(SDag(u), r), u)
RECURSIVE Fwd(_, _, _), Bwd(_, _, _)
Fwd(us, rho, t) == IF t = 1 THEN [m |-> rho, d |-> 0] ELSE TLCEval(Push(us[t - 1], Fwd(us, rho, t - 1)))
Bwd(us, tgt, t) == IF t > Len(us) THEN [m |-> tgt, d |-> 0] ELSE TLCEval(Pull(us[t], Bwd(us, tgt, t + 1)))
(* the derivative of - tr(target rho) with respect to the control in slice t, divided by dt: i tr(lambda^+ [B, rho_t]) *)
GradOf(us, rho, tgt, B, t) ==
  Strict2(LAMBDA r, l : [a |-> -Tr(MMul(Dag(l.m), Comm(B, r.m)))[2], d |-> r.d + l.d],     \* real part of i tr
          Fwd(us, rho, t), Bwd(us, tgt, t))
RECURSIVE Unroot(_, _)
Unroot(a, d) == IF d <= 1 THEN a ELSE Unroot((a + 1) \div 2, d - 2)
NearG(g, v) == IF v.d % 2 = 1 THEN FALSE ELSE QAbs(g * Pow2(v.d \div 2) - v.a * 10000) <= 2 * Pow2(v.d \div 2)

(* AD: value and gradient of the polynomial *)
Cross(cfg, P, R) == IF R = <<>> THEN 0 ELSE cfg.cross * P[1][1] * R[Len(R)]
Poly(cfg, P, R) ==
  GSum([i \in 1..Len(P) |-> GSum([b \in 1..Len(P[i]) |-> cfg.coef[i][b][1] * P[i][b] + cfg.coef[i][b][2] * P[i][b] * P[i][b]])])
  + GSum([j \in 1..Len(R) |-> cfg.pcoef[j][1] * R[j] + cfg.pcoef[j][2] * R[j] * R[j]]) + Cross(cfg, P, R)
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
PolyGrad(cfg, P, R) ==
  Flat([i \in 1..Len(P) |-> [b \in 1..Len(P[i]) |->
     cfg.pulses[i].sc * (cfg.coef[i][b][1] + 2 * cfg.coef[i][b][2] * P[i][b]
                         + (IF i = 1 /\ b = 1 /\ R # <<>> THEN cfg.cross * R[Len(R)] ELSE 0))]])
  \o [j \in 1..Len(R) |-> cfg.pcoef[j][1] + 2 * cfg.pcoef[j][2] * R[j] + (IF j = Len(R) THEN cfg.cross * P[1][1] ELSE 0)]

Passes(cfg, base, x) ==
  Flat([i \in 1..NPul(cfg) |-> LET raw == RawPulse(cfg, base, x, i)
                                IN [b \in 1..Bins(cfg, i) |-> Pass(raw[b], cfg.pulses[i].lo, cfg.pulses[i].hi)]])
  \o [j \in 1..Len(cfg.par) |-> Pass(RawParams(cfg, x)[j], cfg.plim[j][1], cfg.plim[j][2])]
(* received g, expected g, pass *)
AdOk(g, v, p) == CASE p = 1 -> g = v [] p = 0 -> g = 0 [] OTHER -> (0 <= g /\ g <= v) \/ (v <= g /\ g <= 0)

GViol(s, e) ==
  CASE e.e = "si" -> GC("G_settings", \E k \in 1..Len(e.opt) : e.opt[k] # s.cfg.opt[k])
    [] e.e = "ask" -> {}
    [] e.e = "prop" -> GC("G_propcontrols", s.x # <<>> /\ e.p # Pulses(s.cfg, s.base, s.x))
    [] e.e = "eval" -> GC("G_evalcontrols", s.x # <<>> /\ (e.p # Pulses(s.cfg, s.base, s.x) \/ e.r # Params(s.cfg, s.x)))
    [] e.e = "ret" ->
         GC("G_value", e.hf = 1 /\ (s.ev = 0 \/ e.f # s.cfg.fac * s.f))
         \cup (IF e.hg = 0 THEN {}
               ELSE IF s.cfg.alg = 0
               THEN IF s.prop = 0 \/ Len(e.g) # Bins(s.cfg, 1) THEN {"G_gradient"}
                    ELSE GC("G_gradient", \E t \in 1..Len(e.g) : ~NearG(e.g[t], GradOf(s.us, s.cfg.rho, s.cfg.target, s.cfg.B, t)))
               ELSE LET g == PolyGrad(s.cfg, Pulses(s.cfg, s.base, s.x), Params(s.cfg, s.x))
                        ps == Passes(s.cfg, s.base, s.x)
                    IN GC("G_gradient", Len(e.g) # Len(g) \/ \E k \in 1..Len(g) : k <= Len(e.g) /\ ~AdOk(e.g[k], s.cfg.fac * 10000 * g[k], ps[k])))
    [] e.e = "end" -> GC("X_crash", e.exc = 1)
    [] OTHER -> {"unknown_event"}

GStep(s, e) ==
  CASE e.e = "si" ->
         LET new == [k \in 1..NX(s.cfg) |-> IF s.si = 0 THEN 0 ELSE s.base[k] + s.bx[k]]
         IN [s EXCEPT !.si = @ + 1, !.base = new, !.bx = [k \in 1..NX(s.cfg) |-> 0], !.x = <<>>]
    [] e.e = "ask" -> [s EXCEPT !.x = e.x, !.ev = 0, !.prop = 0]
    [] e.e = "prop" -> [s EXCEPT !.prop = 1, !.us = e.us]
    [] e.e = "eval" ->
         LET v == s.cfg.fac * e.f
             rec == s.x # <<>> /\ (s.best = NoF \/ v < s.best)
         IN [s EXCEPT !.ev = 1, !.f = e.f, !.best = IF rec THEN v ELSE s.best, !.bx = IF rec THEN s.x ELSE s.bx]
    [] OTHER -> s
=============================================================================
