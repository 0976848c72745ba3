------------------------------- MODULE Quantum -------------------------------
(***************************************************************************)
(* Exact linear algebra over the Gaussian integers divided by powers of    *)
(* sqrt(2): enough for all rotations by multiples of pi/4 about products   *)
(* of Pauli matrices.  A number is <<re, im>>, a matrix a sequence of      *)
(* rows, a scaled matrix [m, d] = m / sqrt(2)^d.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

QAbs(v) == IF v < 0 THEN -v ELSE v
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
CMul(a, b) == IF a[1] = 0 /\ a[2] = 0 THEN a ELSE <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CConj(a) == <<a[1], -a[2]>>

(* TLC evaluates arguments again and again; a bound variable has a value *)
Strict(Op(_), v) == CHOOSE y \in {TLCEval(Op(x)) : x \in {TLCEval(v)}} : TRUE
Strict2(Op(_, _), v, w) == CHOOSE y \in {TLCEval(Op(x, z)) : x \in {TLCEval(v)}, z \in {TLCEval(w)}} : TRUE

Rows(A) == Len(A)
Cols(A) == Len(A[1])
RECURSIVE Dot(_, _, _, _, _)
Dot(A, B, i, j, k) == IF k = 0 THEN <<0, 0>> ELSE CAdd(CMul(A[i][k], B[k][j]), Dot(A, B, i, j, k - 1))
MMul(A0, B0) == Strict2(LAMBDA A, B : [i \in 1..Rows(A) |-> [j \in 1..Cols(B) |-> Dot(A, B, i, j, Cols(A))]], A0, B0)
MAdd(A0, B0) == Strict2(LAMBDA A, B : [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> CAdd(A[i][j], B[i][j])]], A0, B0)
MSub(A0, B0) == Strict2(LAMBDA A, B : [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> CSub(A[i][j], B[i][j])]], A0, B0)
MScale(c, A0) == Strict(LAMBDA A : [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> CMul(c, A[i][j])]], A0)
Dag(A0) == Strict(LAMBDA A : [i \in 1..Cols(A) |-> [j \in 1..Rows(A) |-> CConj(A[j][i])]], A0)
Conj(A0) == Strict(LAMBDA A : [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> CConj(A[i][j])]], A0)
RECURSIVE TrFrom(_, _)
TrFrom(A, k) == IF k = 0 THEN <<0, 0>> ELSE CAdd(A[k][k], TrFrom(A, k - 1))
Tr(A) == TrFrom(A, Rows(A))
Id(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN <<1, 0>> ELSE <<0, 0>>]])
Zeros(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> <<0, 0>>]])
KronOf(A, B) == LET r == Rows(B)
                    c == Cols(B)
                IN ([i \in 1..(Rows(A) * r) |-> [j \in 1..(Cols(A) * c) |->
                    CMul(A[(i - 1) \div r + 1][(j - 1) \div c + 1], B[((i - 1) % r) + 1][((j - 1) % c) + 1])]])
Kron(A, B) == Strict2(KronOf, A, B)
Comm(A, B) == MSub(MMul(A, B), MMul(B, A))
Outer(v0) == Strict(LAMBDA v : [i \in 1..Len(v) |-> [j \in 1..Len(v) |-> CMul(v[i], CConj(v[j]))]], v0)
Inner(v, w) == LET RECURSIVE S(_)
                   S(k) == IF k = 0 THEN <<0, 0>> ELSE CAdd(CMul(CConj(v[k]), w[k]), S(k - 1))
               IN S(Len(v))
Norm2(v) == Inner(v, v)[1]
Abs2(a) == a[1] * a[1] + a[2] * a[2]

(* Pauli matrices: 0 identity, 1 x, 2 y, 3 z; a string of them is a product over the qubits *)
Pauli1(p) == CASE p = 0 -> Id(2)
               [] p = 1 -> << << <<0, 0>>, <<1, 0>> >>, << <<1, 0>>, <<0, 0>> >> >>
               [] p = 2 -> << << <<0, 0>>, <<0, -1>> >>, << <<0, 1>>, <<0, 0>> >> >>
               [] OTHER -> << << <<1, 0>>, <<0, 0>> >>, << <<0, 0>>, <<-1, 0>> >> >>
RECURSIVE PauliString(_)
PauliString(q) == IF Len(q) = 1 THEN Pauli1(q[1]) ELSE Kron(PauliString(SubSeq(q, 1, Len(q) - 1)), Pauli1(q[Len(q)]))

(* scaled matrices *)
Even(A) == \A i \in 1..Rows(A), j \in 1..Cols(A) : A[i][j][1] % 2 = 0 /\ A[i][j][2] % 2 = 0
Halve(A0) == Strict(LAMBDA A : [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> <<A[i][j][1] \div 2, A[i][j][2] \div 2>>]], A0)
RECURSIVE Reduce(_)
Reduce(u0) == Strict(LAMBDA u : IF u.d >= 2 /\ Even(u.m) THEN Reduce([m |-> Halve(u.m), d |-> u.d - 2]) ELSE u, u0)
SMul(u0, v0) == Strict2(LAMBDA u, v : Reduce([m |-> MMul(u.m, v.m), d |-> u.d + v.d]), u0, v0)
SOne(n) == [m |-> Id(n), d |-> 0]
SDag(u) == [m |-> Dag(u.m), d |-> u.d]

(* exp(-i k pi/4 P) for P^2 = 1 *)
Rotation(P, k) ==
  LET n == Rows(P)
      q == k % 8
      mi == MScale(<<0, -1>>, P)
      pi == MScale(<<0, 1>>, P)
      neg == MScale(<<-1, 0>>, Id(n))
  IN CASE q = 0 -> SOne(n)
       [] q = 1 -> [m |-> MAdd(Id(n), mi), d |-> 1]
       [] q = 2 -> [m |-> mi, d |-> 0]
       [] q = 3 -> [m |-> MAdd(neg, mi), d |-> 1]
       [] q = 4 -> [m |-> neg, d |-> 0]
       [] q = 5 -> [m |-> MAdd(neg, pi), d |-> 1]
       [] q = 6 -> [m |-> pi, d |-> 0]
       [] OTHER -> [m |-> MAdd(Id(n), pi), d |-> 1]
(* exp(-i k pi/2 (P + s Q)/sqrt(2)) for P Q = - Q P, P^2 = Q^2 = 1 *)
Tilted(P, Q, s, k) ==
  LET n == Rows(P)
      sum == MAdd(P, MScale(<<s, 0>>, Q))
      q == k % 4
  IN CASE q = 0 -> SOne(n)
       [] q = 1 -> [m |-> MScale(<<0, -1>>, sum), d |-> 1]
       [] q = 2 -> [m |-> MScale(<<-1, 0>>, Id(n)), d |-> 0]
       [] OTHER -> [m |-> MScale(<<0, 1>>, sum), d |-> 1]
(* a product of rotations about commuting strings; ops: sequence of <<string, k>> *)
RECURSIVE Product(_, _)
Product(n, ops) == IF ops = <<>> THEN SOne(n)
                   ELSE SMul(Product(n, SubSeq(ops, 1, Len(ops) - 1)), Rotation(PauliString(ops[Len(ops)][1]), ops[Len(ops)][2]))

(* the number a / sqrt(2)^d in 10^-6, for |a| < 1500 or so *)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Micro(a, d) == IF d % 2 = 0 THEN (a * 1000000) \div Pow2(d \div 2) ELSE (a * 1414214) \div Pow2((d + 1) \div 2)
NearS(x, u, tol) ==
  /\ Len(x) = Rows(u.m) /\ \A i \in 1..Len(x) : Len(x[i]) = Cols(u.m)
  /\ \A i \in 1..Rows(u.m), j \in 1..Cols(u.m) : \A c \in 1..2 : QAbs(x[i][j][c] - Micro(u.m[i][j][c], u.d)) <= tol
Unitary(u) == LET p == SMul(u, SDag(u)) IN p = SOne(Rows(u.m))
=============================================================================
