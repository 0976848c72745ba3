----------------------------- MODULE GradientMC -----------------------------
(***************************************************************************)
(* The oracle of the gradients against laws that do not mention it.        *)
(* GRAPE: slices of exact propagators are appended one by one; the         *)
(* gradient of every slice has to be the exact derivative of the overlap,  *)
(* obtained from two shifted rotations (for B^2 = 1 the overlap is         *)
(* a + b cos 2x + c sin 2x, so its slope at 0 is the difference at         *)
(* x = pi/4 and x = -pi/4).                                                *)
(* AD: the figure of merit is quadratic, so the slope is half the          *)
(* difference of its values one step to both sides.                        *)
(***************************************************************************)
EXTENDS Gradient
CONSTANTS LEN, DEEP
VARIABLES kind, rho, tgt, B, us, cfg, x
vars == <<kind, rho, tgt, B, us, cfg, x>>

P(i) == Pauli1(i)
Sums == IF DEEP = 1 THEN {<<0, 1, 0>>, <<1, 0, 0>>, <<0, 0, -1>>, <<1, -1, 2>>} ELSE {<<0, 1, 0>>, <<1, -1, 2>>}
Herm(c) == MAdd(MAdd(MScale(<<c[1], 0>>, P(1)), MScale(<<c[2], 0>>, P(2))), MScale(<<c[3], 0>>, P(3)))
State(c) == MAdd(Id(2), Herm(c))
Unitaries == {Rotation(P(1), 1), Rotation(P(2), 1), Rotation(P(3), 2), Tilted(P(1), P(3), 1, 1)}
             \cup (IF DEEP = 1 THEN {Rotation(P(3), 1), Rotation(P(1), 3)} ELSE {})
NoCfg == [alg |-> 0]
Mk(sc, g, lo, hi, cr, q) ==
  [alg |-> 1, fac |-> 1, par |-> <<1>>, plim |-> <<<<-1, 2>>>>,
   pulses |-> <<[bins |-> 2, guess |-> <<g, 0>>, sc |-> sc, lo |-> lo, hi |-> hi]>>,
   coef |-> <<<<<<3, q>>, <<-1, 2>>>>>>, pcoef |-> <<<<2, 1>>>>, cross |-> cr]

Init == \/ /\ kind = 0 /\ \E a, b \in Sums, i \in 0..3 : rho = State(a) /\ tgt = State(b) /\ B = P(i)
           /\ us = <<>> /\ cfg = NoCfg /\ x = <<>>
        \/ /\ kind = 1 /\ rho = <<>> /\ tgt = <<>> /\ B = <<>> /\ us = <<>>
           /\ \E sc \in {1, 2, -1}, g \in {0, 1}, lim \in {<<-2, 2>>, <<-100, 100>>}, cr \in {0, 3}, q \in {0, -2} :
                cfg = Mk(sc, g, lim[1], lim[2], cr, q)
           /\ x = <<0, 0, 0>>
Next == \/ /\ kind = 0 /\ Len(us) < LEN /\ \E u \in Unitaries : us' = Append(us, u)
           /\ UNCHANGED <<kind, rho, tgt, B, cfg, x>>
        \/ /\ kind = 1 /\ \E k \in 1..3, d \in {-1, 1} : x[k] + d \in -3..3 /\ x' = [x EXCEPT ![k] = @ + d]
           /\ UNCHANGED <<kind, rho, tgt, B, us, cfg>>
Spec == Init /\ [][Next]_vars

(* - tr(tgt final state), a scaled number *)
RECURSIVE Play(_, _)
Play(q, r) == IF q = <<>> THEN r ELSE Strict2(Play, Tail(q), Push(Head(q), r))
Cost(q) == Strict(LAMBDA r : [a |-> -Tr(MMul(tgt, r.m))[1], d |-> r.d], Play(q, [m |-> rho, d |-> 0]))
Insert(q, t, u) == SubSeq(q, 1, t - 1) \o <<u>> \o SubSeq(q, t, Len(q))
(* a / sqrt(2)^d = b / sqrt(2)^e with both exponents even *)
SameNum(v0, w0) == Strict2(LAMBDA v, w : v.d % 2 = 0 /\ w.d % 2 = 0 /\ v.a * Pow2(w.d \div 2) = w.a * Pow2(v.d \div 2), v0, w0)
Minus(v0, w0) == Strict2(LAMBDA v, w : [a |-> v.a * Pow2(w.d \div 2) - w.a * Pow2(v.d \div 2), d |-> v.d + w.d], v0, w0)
Slope == kind = 0 /\ B # Id(2) => \A t \in 1..Len(us) :
  SameNum(GradOf(us, rho, tgt, B, t), Minus(Cost(Insert(us, t, Rotation(B, 1))), Cost(Insert(us, t, Rotation(B, -1)))))
NoSlope == kind = 0 /\ B = Id(2) => \A t \in 1..Len(us) : GradOf(us, rho, tgt, B, t).a = 0
(* the overlap of the two propagated states is the same at every time *)
Meet == kind = 0 => \A t \in 1..(Len(us) + 1) :
  SameNum(Strict2(LAMBDA r, l : [a |-> -Tr(MMul(Dag(l.m), r.m))[1], d |-> r.d + l.d], Fwd(us, rho, t), Bwd(us, tgt, t)), Cost(us))
Unit == \A i \in 1..Len(us) : Unitary(us[i])

Zero == <<0, 0, 0>>
Val(y) == Poly(cfg, Pulses(cfg, Zero, y), Params(cfg, y))
Inside(y) == \A k \in 1..3 : Passes(cfg, Zero, y)[k] = 1
Move(k, d) == [x EXCEPT ![k] = @ + d]
Differences == kind = 1 => LET g == PolyGrad(cfg, Pulses(cfg, Zero, x), Params(cfg, x))
                               p == Passes(cfg, Zero, x)
                           IN \A k \in 1..3 : (Passes(cfg, Zero, Move(k, 1))[k] # 0 /\ Passes(cfg, Zero, Move(k, -1))[k] # 0 /\ p[k] = 1)
                                => 2 * g[k] = Val(Move(k, 1)) - Val(Move(k, -1))
Raw(k, y) == IF k = 3 THEN RawParams(cfg, y)[1] ELSE RawPulse(cfg, Zero, y, 1)[k]
RawSide(k, y) == IF k = 3 THEN Raw(k, y) > cfg.plim[1][2] ELSE Raw(k, y) > cfg.pulses[1].hi
Flatness == kind = 1 => LET p == Passes(cfg, Zero, x)
                            n(k) == Passes(cfg, Zero, Move(k, 1))
                        IN \A k \in 1..3 : (p[k] = 0 /\ n(k)[k] = 0 /\ RawSide(k, x) = RawSide(k, Move(k, 1))) => Val(x) = Val(Move(k, 1))
=============================================================================
