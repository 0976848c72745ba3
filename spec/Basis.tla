------------------------------- MODULE Basis -------------------------------
(***************************************************************************)
(* The functions the pulses of the chopped bases are made of.              *)
(*                                                                         *)
(* Time is counted in steps of the time grid, 0..N-1 (the pulse's duration *)
(* is N-1 steps).  All parameters are chosen so that the functions have    *)
(* values known exactly: angles are multiples of 30 degrees, and the error *)
(* function is taken at whole multiples of its width.  Values are in       *)
(* 1/10000.                                                                *)
(*                                                                         *)
(* cfg.p[i]: basis; N; n (vectors); q (Fourier: angle per step and unit of *)
(* super-parameter, in 30 degrees; Sinc: likewise); S (width of a step of  *)
(* the sigmoids, 0: an ideal step); O (offset of the ends); tv, sv (shift  *)
(* and width of a step per unit of their coefficient, 0: AllParas has none *)
(* of these coefficients)                                                  *)
(*   "si"  super-iteration; w[i]: super-parameters of pulse i              *)
(*   "val" pulse p for the coefficients x: its values v (Sinc: times pi/6),*)
(*         less those for coefficients zero                                *)
(*   "start" a search starts with n coefficients, zero of them not zero    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

BC(name, broken) == IF broken THEN {name} ELSE {}
BAbs(v) == IF v < 0 THEN -v ELSE v
Close(a, b, tol) == BAbs(a - b) <= tol
RECURSIVE BSum(_, _)
BSum(f, k) == IF k = 0 THEN 0 ELSE f[k] + BSum(f, k - 1)
SumOf(f) == BSum(f, Len(f))

SinTab == <<0, 5000, 8660, 10000, 8660, 5000, 0, -5000, -8660, -10000, -8660, -5000>>
Sin(m) == SinTab[(m % 12) + 1]
Cos(m) == Sin(m + 3)
(* arccos of -1, -1/2, 0, 1/2, 1 in 30 degrees *)
Acos == <<6, 4, 3, 2, 0>>

(* the step function of width S at distance d; UNDEF where no table value applies *)
UNDEF == 99999
PhiTab == <<5000, 8413, 9772, 9987, 10000>>
Phi(d, S) == IF S = 0 THEN IF d > 0 THEN 10000 ELSE IF d < 0 THEN 0 ELSE 5000
             ELSE IF d >= 5 * S THEN 10000 ELSE IF d <= -5 * S THEN 0
             ELSE IF BAbs(d) % S # 0 THEN UNDEF
             ELSE IF d >= 0 THEN PhiTab[d \div S + 1] ELSE 10000 - PhiTab[(-d) \div S + 1]

(* a * Phi, UNDEF if any is undefined *)
Plus(a, b) == IF a = UNDEF \/ b = UNDEF THEN UNDEF ELSE a + b
Times(a, v) == IF a = 0 THEN 0 ELSE IF v = UNDEF THEN UNDEF ELSE a * v
RECURSIVE Total(_, _)
Total(f, k) == IF k = 0 THEN 0 ELSE Plus(Total(f, k - 1), f[k])

IsSig(p) == p.basis \in {"Sigmoid", "SigmoidTimeDep", "SigmoidSigmas", "SigmoidAllParas"}
HasT(p) == p.basis = "SigmoidTimeDep" \/ (p.basis = "SigmoidAllParas" /\ p.tv > 0)
HasS(p) == p.basis = "SigmoidSigmas" \/ (p.basis = "SigmoidAllParas" /\ p.sv > 0)
NC(p) == CASE p.basis \in {"Fourier", "Chebyshev"} -> 2 * p.n
           [] p.basis = "Sinc" -> p.n
           [] IsSig(p) -> p.n + 1 + (IF HasT(p) THEN p.n ELSE 0) + (IF HasS(p) THEN p.n ELSE 0)

(* coefficients of the sigmoids *)
Amp(p, x, k) == x[k + 1]                                         \* k = 0..n
Shift(p, x, k) == IF HasT(p) THEN p.tv * x[p.n + 1 + k] ELSE 0
Widen(p, x, k) == IF HasS(p) THEN BAbs(x[p.n + 1 + (IF HasT(p) THEN p.n ELSE 0) + k]) ELSE 0
AmpSum(p, x) == SumOf([k \in 1..(p.n + 1) |-> x[k]])
Step(p, x, w, k) == w[k] + Shift(p, x, k)
Final(p) == p.N - 1
(* no step was shifted out of the pulse *)
First(p) == IF p.O < 0 THEN 0 ELSE p.O
Fits(p, x, w) == ~HasT(p) \/ \A k \in 1..p.n : Step(p, x, w, k) >= First(p) /\ Step(p, x, w, k) <= Final(p) - First(p)
(* the width of step k; with a positive offset it is limited by the room at the ends: known only when not widened *)
WidthKnown(p, x, k) == p.O <= 0 \/ Widen(p, x, k) = 0
Width(p, x, k) == p.S + p.sv * Widen(p, x, k)

SigVal(p, x, w, j) ==
  Plus(Total([k \in 1..p.n |-> Times(Amp(p, x, k), Phi(j - Step(p, x, w, k), Width(p, x, k)))], p.n),
       Plus(Times(Amp(p, x, 0), Phi(j - p.O, p.S)), Times(-AmpSum(p, x), Phi(j - (Final(p) - p.O), p.S))))

(* The steps were shifted beyond the ends: they are moved back.  With ideal steps, every value is a partial sum of the  *)
(* amplitudes in the order of the shifted steps, with nothing before the first and after the last end.                  *)
RECURSIVE Prefix(_, _, _, _)
Earlier(p, x, w, T) == {k \in 1..p.n : Step(p, x, w, k) <= T}
Prefix(p, x, w, T) == Amp(p, x, 0) + BSum([k \in 1..p.n |-> IF k \in Earlier(p, x, w, T) THEN Amp(p, x, k) ELSE 0], p.n)
Levels(p, x, w) == {Amp(p, x, 0)} \cup {Prefix(p, x, w, Step(p, x, w, k)) : k \in 1..p.n}
Distinct(p, x, w) == Cardinality({Step(p, x, w, k) : k \in 1..p.n}) = p.n
MovedOk(p, x, w, v) ==
  /\ \A j \in 1..p.N : (j - 1 < p.O \/ j - 1 > Final(p) - p.O) => Close(v[j], 0, 30)
  /\ \A j \in 1..p.N : (j - 1 > p.O /\ j - 1 < Final(p) - p.O) =>
       (\E a \in Levels(p, x, w) : Close(v[j], 10000 * a, 30)) \/
       (\* a step falls on this point
        \E a, b \in Levels(p, x, w) : IF p.O >= 0 THEN Close(2 * v[j], 10000 * (a + b), 60)
                                      ELSE 10000 * a - 30 <= v[j] /\ v[j] <= 10000 * b + 30)

SigOk(p, x, w, v) ==
  IF ~Fits(p, x, w) THEN p.S # 0 \/ HasS(p) \/ ~Distinct(p, x, w) \/ MovedOk(p, x, w, v)
  ELSE ~(\A k \in 1..p.n : WidthKnown(p, x, k)) \/
       \A j \in 1..p.N : LET e == SigVal(p, x, w, j - 1) IN e = UNDEF \/ Close(v[j], e, 30)
(* the pulse is finite, and what it starts and ends with *)
Shape(p, x, w, v) ==
  CASE p.basis = "Fourier" ->
         \A j \in 1..p.N : Close(v[j], BSum([k \in 1..p.n |-> x[2 * k - 1] * Sin(p.q * w[k] * (j - 1))
                                                              + x[2 * k] * Cos(p.q * w[k] * (j - 1))], p.n), 30)
    [] p.basis = "Chebyshev" ->
         \A j \in 1..p.N : Close(v[j], BSum([k \in 1..p.n |-> x[2 * k - 1] * Cos(w[k] * Acos[j] + x[2 * k])], p.n), 30)
    [] p.basis = "Sinc" ->
         \A j \in 1..p.N : Close(v[j], BSum([k \in 1..p.n |->
              LET m == p.q * (j - 1 - w[k]) IN
              IF m = 0 THEN 5236 * x[k]
              ELSE LET a == x[k] * Sin(m) * (IF m < 0 THEN -1 ELSE 1) IN
                   IF a >= 0 THEN a \div BAbs(m) ELSE -((-a) \div BAbs(m))], p.n), 30)
    [] IsSig(p) -> SigOk(p, x, w, v)

BInit(cfg) == [cfg |-> cfg, w |-> <<>>]

BViol(s, e) ==
  CASE e.e = "start" ->
         BC("U_count", e.n # SumOf([i \in 1..Len(s.cfg.p) |-> NC(s.cfg.p[i])])) \cup BC("U_start", e.zero # 0)
    [] e.e = "si" -> {}
    [] e.e = "val" ->
         LET p == s.cfg.p[e.p] IN
         BC("U_length", Len(e.v) # p.N)
         \cup BC("U_shape", Len(e.v) = p.N /\ ~Shape(p, e.x, s.w[e.p], e.v))
    [] e.e = "end" -> BC("X_crash", e.exc = 1)
    [] OTHER -> {"unknown_event"}

BStep(s, e) == IF e.e = "si" THEN [s EXCEPT !.w = e.w] ELSE s
=============================================================================
