----------------------------- MODULE ProblemsMC -----------------------------
(***************************************************************************)
(* The oracle of the example problems against laws that do not mention it. *)
(* A drive is a sequence of rotations, built slice by slice.               *)
(***************************************************************************)
EXTENDS Problems
CONSTANTS LEN, NQ
VARIABLES q, ops
vars == <<q, ops>>
Vs == {<<<<1, 0>>, <<0, 0>>>>, <<<<2, 0>>, <<0, -2>>>>, <<<<0, 0>>, <<0, 3>>>>, <<<<1, 1>>, <<1, 0>>>>}
Ops == {<<0, p, k>> : p \in 1..3, k \in {1, 2, -1}} \cup {<<1, 1, 3, s, k>> : s \in {1, -1}, k \in {1, 2}}
Init == \E a, b \in Vs : q = [psi0 |-> a, target |-> b] /\ ops = <<>>
Next == /\ Len(ops) < LEN /\ \E o \in Ops : ops' = Append(ops, o) /\ q' = q
Spec == Init /\ [][Next]_vars

Orth(v) == << <<-v[2][1], v[2][2]>>, <<v[1][1], -v[1][2]>> >>
Back(o) == IF o[1] = 0 THEN <<0, o[2], -o[3]>> ELSE <<1, o[2], o[3], o[4], -o[5]>>
Rest(o) == [k \in 1..Len(o) |-> Back(o[Len(o) + 1 - k])]
Near2(a, b) == QAbs(a - b) <= Tol
Range1 == Overlap(q, ops) >= 0 /\ Overlap(q, ops) <= 1000000
(* the target and its orthogonal complement share the state *)
Complete == Near2(Overlap(q, ops) + Overlap([q EXCEPT !.target = Orth(q.target)], ops), 1000000)
(* running the drive backward from the target to the initial state gives the same *)
Reverse == Near2(Overlap(q, ops), Overlap([psi0 |-> q.target, target |-> q.psi0], Rest(ops)))
(* undoing the drive brings the state back *)
Return == Near2(Overlap([q EXCEPT !.target = q.psi0], ops \o Rest(ops)), 1000000)
(* neither norm nor phase of the states matter *)
Ray == Near2(Overlap(q, ops), Overlap([psi0 |-> <<CMul(<<0, 2>>, q.psi0[1]), CMul(<<0, 2>>, q.psi0[2])>>, target |-> q.target], ops))

Sum(m, n) == TLCEval(MMul(m, n))
ParityOf(n) == PauliString([i \in 1..n |-> 1])
Shifted(n, i) == IF i = 0 THEN 0 ELSE i
(* Ising chain: hermitian, the same energy after flipping all qubits; the drive commutes with the flip *)
Ising == ops = <<>> => \A n \in 3..NQ, J, g \in {0, 1, 2} :
  LET H == Ring(n, J, g)
      X == ParityOf(n)
  IN /\ Dag(H) = H /\ Sum(H, X) = Sum(X, H) /\ Sum(Drive(n), X) = Sum(X, Drive(n)) /\ Tr(H) = <<0, 0>>
     /\ H[1][1][1] = -n * (J + g)                      \* all spins up: every bond satisfied
(* the probability that all qubits flip is the matrix element of the product propagator *)
FlipProb == ops = <<>> => \A n \in 2..NQ, k \in 0..8 :
  LET u == XAll(n, k)
      a == Abs2(u.m[Pow2(n)][1])
  IN QAbs(Flip(n, k) - (a * 1000000) \div Pow2(u.d)) <= 1
(* Rosenbrock's function: zero exactly at (1, ..., 1), never negative *)
RosenMin == ops = <<>> => \A x \in [1..3 -> -3..3] : Rosen(x) >= 0 /\ (Rosen(x) = 0 <=> x = <<2, 2, 2>>)
=============================================================================
