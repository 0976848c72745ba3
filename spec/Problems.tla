------------------------------ MODULE Problems ------------------------------
(***************************************************************************)
(* The example problems.  cfg: psi0, target: vectors of Gaussian integers, *)
(* not normalized; fac -1 / 1 optimization factor; drift, noise in 1/100;  *)
(* two: the problem with two fields; n qubits; max, ad (Ising).            *)
(*   "fom"   ops: per slice <<0, p, k>>   rotation about Pauli p by k      *)
(*           quarter angles, <<1, p, q, s, k>> half-turns about a tilted   *)
(*           axis;                                                         *)
(*           f: figure of merit in 10^-6, std                              *)
(*   "saved" the list of figures of merit written to the file              *)
(*   "drift", "control", "states": matrices of the Ising chain (10^-3)     *)
(*   "props" first rows of the propagators for the pulse k (no drift)      *)
(*   "ising" figure of merit for the pulse k                               *)
(*   "rosen" Rosenbrock's function of x/2, in 10^-3                        *)
(***************************************************************************)
EXTENDS Quantum

PC(name, broken) == IF broken THEN {name} ELSE {}
NoVal == 2147483647
RECURSIVE PSum(_)
PSum(q) == IF q = <<>> THEN 0 ELSE Head(q) + PSum(Tail(q))
PInit(cfg) == [cfg |-> cfg, n |-> 0, fs |-> <<>>]

OpOf(o) == IF o[1] = 0 THEN Rotation(Pauli1(o[2]), o[3]) ELSE Tilted(Pauli1(o[2]), Pauli1(o[3]), o[4], o[5])
RECURSIVE Evolve(_, _)
Evolve(ops, u) == IF ops = <<>> THEN u ELSE Evolve(Tail(ops), SMul(OpOf(Head(ops)), u))
Column(v) == [i \in 1..Len(v) |-> <<v[i]>>]
(* fidelity, in 10^-6: |<t|U|i>|^2 / (|t|^2 |i|^2) *)
Overlap(cfg, ops) ==
  LET a == Evolve(ops, SOne(2))
      v == MMul(a.m, Column(cfg.psi0))
      o == Abs2(Inner(cfg.target, <<v[1][1], v[2][1]>>))
  IN (((o * 50000) \div (Norm2(cfg.target) * Norm2(cfg.psi0))) * 20) \div Pow2(a.d)
Infidelity(cfg, ops) == 1000000 - Overlap(cfg, ops)
Tol == 60

ZZ(n, i, j) == PauliString([q \in 1..n |-> IF q \in {i, j} THEN 3 ELSE 0])
XAt(n, i) == PauliString([q \in 1..n |-> IF q = i THEN 1 ELSE 0])
Next1(n, i, d) == ((i + d - 1) % n) + 1
RECURSIVE MSumTo(_, _)
MSumTo(F, n) == IF n = 1 THEN F[1] ELSE MAdd(F[n], MSumTo(F, n - 1))
(* - J sum Z_i Z_{i+1} - g sum Z_i Z_{i+2} on a ring; - only the diagonal matters - *)
Ring(n, J, g) == MAdd(MScale(<<-J, 0>>, MSumTo([i \in 1..n |-> ZZ(n, i, Next1(n, i, 1))], n)),
                      MScale(<<-g, 0>>, MSumTo([i \in 1..n |-> ZZ(n, i, Next1(n, i, 2))], n)))
Drive(n) == MSumTo([i \in 1..n |-> XAt(n, i)], n)
Corner(n, k) == [i \in 1..Pow2(n) |-> [j \in 1..Pow2(n) |-> IF i = k /\ j = k THEN <<1, 0>> ELSE <<0, 0>>]]
NearI(x, m) == /\ Len(x) = Rows(m) /\ \A i \in 1..Len(x) : Len(x[i]) = Cols(m)
               /\ \A i \in 1..Rows(m), j \in 1..Cols(m) : \A c \in 1..2 : QAbs(x[i][j][c] - 1000 * m[i][j][c]) <= 1
RECURSIVE XAll(_, _)
XAll(n, k) == IF n = 1 THEN Rotation(Pauli1(1), k)
              ELSE LET a == XAll(n - 1, k)
                       b == Rotation(Pauli1(1), k)
                   IN [m |-> Kron(a.m, b.m), d |-> a.d + b.d]
RowNear(x, u) == Len(x) = Cols(u.m) /\ \A j \in 1..Cols(u.m) : \A c \in 1..2 : QAbs(x[j][c] - Micro(u.m[1][j][c], u.d)) <= 5
(* probability, in 10^-6, that all qubits flipped: sin^2(K pi/4)^n *)
Flip(n, K) == CASE K % 4 = 0 -> 0 [] K % 4 = 2 -> 1000000 [] OTHER -> 1000000 \div Pow2(n)
Sign(cfg) == IF cfg.ad = 1 THEN 1 ELSE IF cfg.max = 1 THEN 1 ELSE -1
RECURSIVE Rosen(_)
(* 16 times the function of x/2 *)
Rosen(x) == IF Len(x) <= 1 THEN 0
            ELSE 100 * (2 * x[2] - x[1] * x[1]) * (2 * x[2] - x[1] * x[1]) + 4 * (2 - x[1]) * (2 - x[1]) + Rosen(Tail(x))
NearStd(cfg, std, quiet) == IF cfg.noise > 0 THEN QAbs(std - cfg.noise * 6827) <= 2 ELSE std \in quiet

PViol(s, e) ==
  LET c == s.cfg
  IN CASE e.e = "fom" ->
         LET inf == Infidelity(c, e.ops) + (IF c.two = 0 THEN c.drift * 10000 * s.n ELSE 0)
             f == IF c.two = 1 THEN e.f ELSE -c.fac * e.f
             near == QAbs(f - inf) <= Tol + c.noise * 10000 \/ (c.two = 1 /\ QAbs(f + inf) <= Tol + c.noise * 10000)
         IN PC("P_fom", e.f = NoVal \/ ~near)
            \cup PC("P_std", ~NearStd(c, e.std, {0, 100}))
       [] e.e = "noise" -> PC("P_noise", c.noise > 0 /\ Len(s.fs) > 2 /\ \A k \in 2..Len(s.fs) : s.fs[k].dev = s.fs[1].dev)
       [] e.e = "saved" -> PC("P_saved", e.list # [k \in 1..Len(s.fs) |-> s.fs[k].f] /\ c.two = 0)
       [] e.e = "drift" -> PC("P_drift", ~NearI(e.m, Ring(c.n, e.J, e.g)))
       [] e.e = "control" -> PC("P_control", ~NearI(e.m, Drive(c.n)))
       [] e.e = "states" -> PC("P_states", ~NearI(e.first, Corner(c.n, 1)) \/ ~NearI(e.last, Corner(c.n, Pow2(c.n))))
       [] e.e = "props" -> PC("P_props", Len(e.list) # Len(e.k)
                                         \/ (e.drift = 0 /\ \E i \in 1..Len(e.k) : ~RowNear(e.list[i], XAll(c.n, e.k[i]))))
       [] e.e = "ising" -> PC("P_ising", e.f = NoVal \/ (e.drift = 0 /\ QAbs(e.f - Sign(c) * Flip(c.n, PSum(e.k))) > Tol)
                                          \/ (e.drift = 1 /\ (\A i \in 1..Len(e.k) : e.k[i] = 0) /\ QAbs(e.f) > Tol))
       [] e.e = "rosen" -> PC("P_rosen", e.f = NoVal \/ QAbs(2 * e.f - 125 * Rosen(e.x)) > 4 + 20 * c.noise)
                           \cup PC("P_std", ~NearStd(c, e.std, {0}))
       [] e.e = "kept" -> PC("P_kept", e.ok = 0)
       [] e.e = "end" -> PC("X_crash", e.exc = 1)
       [] OTHER -> {"unknown_event"}
PStep(s, e) == IF e.e = "fom"
               THEN [s EXCEPT !.n = @ + 1, !.fs = Append(@, [f |-> e.f, dev |-> IF e.f = NoVal THEN 0 ELSE
                     (IF s.cfg.two = 1 THEN e.f ELSE -s.cfg.fac * e.f) - Infidelity(s.cfg, e.ops)])]
               ELSE s
=============================================================================
