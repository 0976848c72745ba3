------------------------------- MODULE Tools -------------------------------
(***************************************************************************)
(* State and signal tools.  Every event carries the input and the result;  *)
(* the operators below say what the result is.                             *)
(***************************************************************************)
EXTENDS Quantum, FiniteSets

TC(name, broken) == IF broken THEN {name} ELSE {}
NoNum == 2147483647
RECURSIVE TSum(_), TProd(_)
TSum(q) == IF q = <<>> THEN 0 ELSE Head(q) + TSum(Tail(q))
TProd(q) == IF q = <<>> THEN 1 ELSE Head(q) * TProd(Tail(q))

(* partial trace: subsystems 1..n of dimensions dims, the first one varies slowest *)
RECURSIVE IndexOf(_, _)
IndexOf(dims, x) == IF dims = <<>> THEN 0 ELSE Head(x) * TProd(Tail(dims)) + IndexOf(Tail(dims), Tail(x))
RECURSIVE DigitsOf(_, _)
DigitsOf(dims, i) == IF dims = <<>> THEN <<>> ELSE <<i \div TProd(Tail(dims))>> \o DigitsOf(Tail(dims), i % TProd(Tail(dims)))
Gone(e) == {p + 1 : p \in {e.out[i] : i \in 1..Len(e.out)}}
KeepSeq(e) == SelectSeq([i \in 1..Len(e.dims) |-> i], LAMBDA i : i \notin Gone(e))
GoneSeq(e) == SelectSeq([i \in 1..Len(e.dims) |-> i], LAMBDA i : i \in Gone(e))
Pick(dims, idx) == [k \in 1..Len(idx) |-> dims[idx[k]]]
(* the basis state with digits a in the kept and g in the traced subsystems *)
PosIn(q, x) == CHOOSE k \in 1..Len(q) : q[k] = x
Joint(e, K, G, a, g) == [i \in 1..Len(e.dims) |-> IF i \in Gone(e) THEN g[PosIn(G, i)] ELSE a[PosIn(K, i)]]
RECURSIVE CSumTo(_, _)
CSumTo(F, n) == IF n = 0 THEN <<0, 0>> ELSE CAdd(F[n], CSumTo(F, n - 1))
PTrace(e) ==
  LET K == KeepSeq(e)
      G == GoneSeq(e)
      kd == Pick(e.dims, K)
      gd == Pick(e.dims, G)
      ng == TProd(gd)
  IN [i \in 1..TProd(kd) |-> [j \in 1..TProd(kd) |->
       CSumTo([g \in 1..ng |->
         LET gg == DigitsOf(gd, g - 1)
         IN e.m[IndexOf(e.dims, Joint(e, K, G, DigitsOf(kd, i - 1), gg)) + 1]
               [IndexOf(e.dims, Joint(e, K, G, DigitsOf(kd, j - 1), gg)) + 1]], ng)]]

SameSize(x, m) == Len(x) = Rows(m) /\ \A i \in 1..Len(x) : Len(x[i]) = Cols(m)
(* x approximates unit * m *)
NearM(x, m, unit, tol) == SameSize(x, m) /\ \A i \in 1..Rows(m), j \in 1..Cols(m) : \A c \in 1..2 : QAbs(x[i][j][c] - unit * m[i][j][c]) <= tol

DotR(p, q) == TSum([i \in 1..Len(p) |-> p[i] * q[i]])

Idx(left) == Kron(Id(left), Pauli1(1))
Idy(left) == Kron(Id(left), Pauli1(2))
(* exp(alpha a^+ - conj(alpha) a), a lowering operator, alpha = k pi/4 (or k pi/2 on a diagonal) in direction dir pi/4 *)
Displaced(left, k, dir) ==
  LET x == Idx(left)
      y == Idy(left)
      q == dir % 8
  IN CASE q = 0 -> Rotation(y, k)
       [] q = 2 -> Rotation(x, -k)
       [] q = 4 -> Rotation(y, -k)
       [] q = 6 -> Rotation(x, k)
       [] q = 1 -> Tilted(y, x, -1, k)
       [] q = 3 -> Tilted(y, x, 1, -k)
       [] q = 5 -> Tilted(y, x, -1, -k)
       [] OTHER -> Tilted(y, x, 1, k)

(* sample i of pulse column c at time t/per (in sampling intervals): the nearest one, the edges extended *)
Nearest(n, per, t) == IF t <= 0 THEN 1 ELSE IF t >= (n - 1) * per THEN n ELSE (2 * t + per) \div (2 * per) + 1
(* x0 / 2^(h (i-1)) in 10^-6 *)
DecayNear(x, x0, h, i) == IF h * (i - 1) > 20 THEN QAbs(x) <= 5 + QAbs(x0) ELSE QAbs(x * Pow2(h * (i - 1)) - x0 * 1000000) <= 2 * Pow2(h * (i - 1))
Within(x, lo, hi) == x >= lo /\ x <= hi

ColN2(o, j) == TSum([i \in 1..Len(o) |-> o[i][j] * o[i][j]])
(* q = o / sqrt(n2) in 10^-4 *)
UnitNear(q, o, n2) == LET x == q[1] \div 1000
                      IN QAbs(q[2]) <= 2 /\ (o > 0 => q[1] > 0) /\ (o < 0 => q[1] < 0) /\ QAbs(x * x * n2 - o * o * 1000000) <= 6000 * n2

TViol(e) ==
  CASE e.e = "ptrace" -> TC("T_ptrace", LET p == PTrace(e) IN ~NearM(e.got, p, 1, 0))
    [] e.e = "badtrace" -> TC("T_badtrace", e.refused = 0)
    [] e.e = "dm" -> TC("T_dm", ~NearM(e.got, Outer(e.v), 1, 0))
    [] e.e = "comm" -> TC("T_comm", ~NearM(e.got, Comm(e.a, e.b), 1, 0))
    [] e.e = "sqrt" -> TC("T_sqrt", ~NearM(e.got, MMul(Dag(e.g), e.g), 1000, 2))
    [] e.e = "fid" -> TC("T_fid", e.got = NoNum \/ LET d == DotR(e.p, e.q) IN QAbs(e.got - 1000 * (IF e.root = 1 THEN d ELSE d * d)) > 2)
    [] e.e = "pure" -> TC("T_pure", e.got = NoNum \/ QAbs(e.got - 1000 * Abs2(Inner(e.v, e.w))) > 2)
    [] e.e = "disp" -> TC("T_disp", ~NearS(e.got, Displaced(e.left, e.k, e.dir), 5))
    [] e.e = "gs" -> TC("T_gs", Len(e.got) # Len(e.o) \/ \E i, j \in 1..Len(e.o) : ~UnitNear(e.got[i][j], e.o[i][j], ColN2(e.o, j)))
    \* the start simplex: first vertex at the mean, edges orthonormal in units of the variations (10^-4)
    [] e.e = "simplex" -> TC("T_simplex",
         e.n # Len(e.mean) + 1 \/ e.first # [i \in 1..Len(e.mean) |-> 1000 * e.mean[i]]
         \/ \E i, j \in 1..Len(e.edges) : QAbs(DotR(e.edges[i], e.edges[j]) - (IF i = j THEN 100000000 ELSE 0)) > 30000)
    [] e.e = "resample" -> TC("T_resample",
         Len(e.got) # Len(e.times) \/ \E i \in 1..Len(e.times) : e.got[i] # e.vals[Nearest(Len(e.vals), e.per, e.times[i])])
    [] e.e \in {"decay", "shift"} -> TC("T_" \o e.e, Len(e.got) # e.ns \/ \E i \in 1..Len(e.got) : ~DecayNear(e.got[i], e.x0, e.h, i))
    [] e.e = "double" -> TC("T_double", Len(e.a) # Len(e.b) \/ \E i \in 1..Len(e.a) : QAbs(e.b[i] - 2 * e.a[i]) > 3)
    [] e.e = "ens" -> TC("T_ensemble", e.shape # <<e.traj, e.ns>> \/ (e.ns > 1 /\ e.equal > 0)
                                        \/ \E i \in 1..Len(e.first) : e.first[i] # e.x0 * 1000000)
    \* innovations: standard normal times sqrt(c tau / 2 (1 - 4^-h)), independent; limits 6 standard errors for n >= 20000
    [] e.e = "oustat" -> TC("T_noise", ~Within(e.mean, -45, 45) \/ ~Within(e.lag, -45, 45) \/ ~Within(e.cross, -45, 45)
                                        \/ ~Within(e.kurt, 2750, 3250)
                                        \/ LET v == (1000 * e.ct * (Pow2(2 * e.h) - 1)) \div (2 * Pow2(2 * e.h))
                                           IN ~Within(e.var, v - v \div 14, v + v \div 14))
    [] e.e = "kept" -> TC("T_kept", e.ok = 0)
    [] e.e = "end" -> TC("X_crash", e.exc = 1)
    [] OTHER -> {"unknown_event"}
=============================================================================
