---------------------------- MODULE EvolutionMC ----------------------------
(***************************************************************************)
(* The exact linear algebra behind the evolution, the problems and the     *)
(* gradients, against the laws of rotations; slices are appended one by    *)
(* one to a propagator of one or two qubits.                               *)
(***************************************************************************)
EXTENDS Evolution
CONSTANTS N, LEN
VARIABLES sl, es, u      \* slices, their propagators, the product
vars == <<sl, es, u>>
Strings == IF N = 1 THEN {<<p>> : p \in 1..3} ELSE {<<1, 0>>, <<0, 2>>, <<3, 3>>, <<2, 1>>}
Ks == {-1, 1, 2, 3, 4, 6}
Slices == {[e |-> "slice", tilt |-> 0, s |-> 0, ops |-> <<<<q, k>>>>] : q \in Strings, k \in Ks}
          \cup {[e |-> "slice", tilt |-> k, s |-> s, ops |-> <<<<<<1>> \o Rest, 0>>, <<<<3>> \o Rest, 0>>>>] : k \in {1, -1, 2}, s \in {1, -1},
                Rest \in {IF N = 1 THEN <<>> ELSE <<0>>}}
          \cup (IF N = 1 THEN {} ELSE {[e |-> "slice", tilt |-> 0, s |-> 0, ops |-> <<<<<<1, 0>>, k>>, <<<<0, 2>>, j>>>>] : k, j \in {1, 2}})
D == Pow2(N)
Init == sl = <<>> /\ es = <<>> /\ u = SOne(D)
Next == /\ Len(es) < LEN /\ \E e \in Slices : sl' = Append(sl, e) /\ es' = Append(es, SliceOf(e, D)) /\ u' = SMul(SliceOf(e, D), u)
Spec == Init /\ [][Next]_vars

Same(a, b) == LET x == Reduce(a)
                  y == Reduce(b)
              IN x = y
UnitaryAll == Unitary(u)
(* the propagator does not depend on where the sequence is cut, and time goes from right to left *)
Cut == \A k \in 0..Len(es) : Same(Total(es, SOne(D)), Total(SubSeq(es, k + 1, Len(es)), Total(SubSeq(es, 1, k), SOne(D))))
Product2 == Same(Total(es, SOne(D)), u)
(* running everything backward undoes it *)
Undo == Same(Total([k \in 1..Len(es) |-> SDag(es[Len(es) + 1 - k])], u), SOne(D))
(* an initial propagator acts first *)
First == \A q \in Strings : Same(Total(es, Rotation(PauliString(q), 1)), SMul(u, Rotation(PauliString(q), 1)))
(* rotations: additive, periodic (8 quarter angles are the identity), inverse = adjoint *)
Additive == es = <<>> => \A q \in Strings, j, k \in 0..7 :
   /\ Same(SMul(Rotation(PauliString(q), j), Rotation(PauliString(q), k)), Rotation(PauliString(q), j + k))
   /\ Same(SDag(Rotation(PauliString(q), k)), Rotation(PauliString(q), -k))
   /\ Rotation(PauliString(q), k + 8) = Rotation(PauliString(q), k)
(* Pauli algebra: squares are one, products of different ones turn *)
Algebra == es = <<>> => \A a, b \in 1..3 :
   /\ MMul(Pauli1(a), Pauli1(a)) = Id(2) /\ Dag(Pauli1(a)) = Pauli1(a) /\ Tr(Pauli1(a)) = <<0, 0>>
   /\ a # b => MAdd(MMul(Pauli1(a), Pauli1(b)), MMul(Pauli1(b), Pauli1(a))) = Zeros(2)
   /\ MMul(Pauli1(1), Pauli1(2)) = MScale(<<0, 1>>, Pauli1(3))
(* a half-turn about the diagonal x + z exchanges them; the other diagonal with a sign *)
Diagonal == es = <<>> => \A s \in {1, -1}, k \in {1, -1, 3} :
   LET t == Tilted(Pauli1(1), Pauli1(3), s, k)
   IN Same(SMul(SMul(t, [m |-> Pauli1(1), d |-> 0]), SDag(t)), [m |-> MScale(<<s, 0>>, Pauli1(3)), d |-> 0])
(* Kronecker products multiply factor by factor *)
Mixed == es = <<>> => \A a, b, c, d \in 0..3 :
   MMul(Kron(Pauli1(a), Pauli1(b)), Kron(Pauli1(c), Pauli1(d))) = Kron(MMul(Pauli1(a), Pauli1(c)), MMul(Pauli1(b), Pauli1(d)))
=============================================================================
