------------------------------ MODULE ToolsMC ------------------------------
(***************************************************************************)
(* The oracles of the tools against laws that do not mention them.         *)
(* States: a product of two or three subsystems is built one factor at a   *)
(* time; partial traces of it must give the factors back, in any order.    *)
(* Signals: the nearest sample is a sample at minimal distance.            *)
(***************************************************************************)
EXTENDS Tools
CONSTANTS PARTS, DEEP
VARIABLES fs, m, extra
vars == <<fs, m, extra>>
C(a, b) == <<a, b>>
Factors == { <<<<C(1,0), C(0,1)>>, <<C(0,-1), C(2,0)>>>>, <<<<C(3,0), C(1,2)>>, <<C(0,0), C(-1,0)>>>>,
             <<<<C(1,0), C(0,0), C(2,1)>>, <<C(0,1), C(1,0), C(0,0)>>, <<C(0,0), C(-1,0), C(1,1)>>>> }
           \cup (IF DEEP = 1 THEN { <<<<C(2,0)>>>>, <<<<C(0,0), C(1,0)>>, <<C(1,0), C(0,0)>>>> } ELSE {})
Init == fs = <<>> /\ m = <<<<C(1,0)>>>> /\ extra = 0
Next == /\ Len(fs) < PARTS /\ \E f \in Factors : fs' = Append(fs, f) /\ m' = Kron(m, f) /\ extra' = extra
Spec == Init /\ [][Next]_vars

Dims == [i \in 1..Len(fs) |-> Rows(fs[i])]
Ev(d, mm, out) == [dims |-> d, m |-> mm, out |-> out]
Subsets == SUBSET (0..(Len(fs) - 1))
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
RECURSIVE KronAll(_), CProd(_)
KronAll(q) == IF q = <<>> THEN <<<<C(1,0)>>>> ELSE Kron(KronAll(SubSeq(q, 1, Len(q) - 1)), q[Len(q)])
CProd(q) == IF q = <<>> THEN C(1, 0) ELSE CMul(Head(q), CProd(Tail(q)))
KeptOf(S) == SelectSeq([i \in 1..Len(fs) |-> i], LAMBDA i : (i - 1) \notin S)
GoneOf(S) == SelectSeq([i \in 1..Len(fs) |-> i], LAMBDA i : (i - 1) \in S)
(* kept factors, in order, times the traces of the others *)
Factorwise == fs # <<>> => \A S \in Subsets :
  PTrace(Ev(Dims, m, SeqOf(S))) =
    MScale(CProd([k \in 1..Len(GoneOf(S)) |-> Tr(fs[GoneOf(S)[k]])]), KronAll([k \in 1..Len(KeptOf(S)) |-> fs[KeptOf(S)[k]]]))
AnyOrder == fs # <<>> => \A S \in Subsets : PTrace(Ev(Dims, m, SeqOf(S))) = PTrace(Ev(Dims, m, Rev(SeqOf(S))))
Whole == fs # <<>> => PTrace(Ev(Dims, m, SeqOf(0..(Len(fs) - 1)))) = <<<<Tr(m)>>>> /\ PTrace(Ev(Dims, m, <<>>)) = m
(* in two steps, also for a matrix which is not a product *)
Bent == [i \in 1..Rows(m) |-> [j \in 1..Cols(m) |-> CAdd(m[i][j], C(i * j, i - 2 * j))]]
TwoSteps == Len(fs) >= 2 => LET b == Bent
                                one == PTrace(Ev(Dims, b, <<Len(fs) - 1>>))
                            IN PTrace(Ev(SubSeq(Dims, 1, Len(fs) - 1), one, <<0>>)) = PTrace(Ev(Dims, b, <<0, Len(fs) - 1>>))
Digits == fs # <<>> => \A i \in 0..(TProd(Dims) - 1) : IndexOf(Dims, DigitsOf(Dims, i)) = i
Near1 == fs = <<>> => \A n \in 1..4, per \in 1..3, t \in -3..12 :
  LET k == Nearest(n, per, t) IN k \in 1..n /\ \A j \in 1..n : QAbs(t - (k - 1) * per) <= QAbs(t - (j - 1) * per)
Displace == fs = <<>> => \A left \in {1, 2}, k \in 0..7, dir \in 0..7 :
  LET u == Displaced(left, k, dir)
      w == SMul(u, Displaced(left, k, dir + 4))
  IN Unitary(u) /\ w = SOne(Rows(u.m))     \* the opposite displacement undoes it
Pure == fs = <<>> => \A a, b, c, d \in -1..1 : LET v == <<C(a, b), C(c, d)>> IN
  /\ Dag(Outer(v)) = Outer(v) /\ Tr(Outer(v)) = C(Norm2(v), 0) /\ MMul(Outer(v), Outer(v)) = MScale(C(Norm2(v), 0), Outer(v))
=============================================================================
