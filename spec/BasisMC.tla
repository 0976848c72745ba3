------------------------------ MODULE BasisMC ------------------------------
(***************************************************************************)
(* The oracle of the bases against laws that do not mention it: one pulse, *)
(* coefficients are changed one at a time.                                 *)
(***************************************************************************)
EXTENDS Basis, TLC
CONSTANTS R
VARIABLES p, w, x
vars == <<p, w, x>>
Mk(b, n, S, O, tv, sv) == [basis |-> b, N |-> 13, n |-> n, q |-> 1, S |-> S, O |-> O, tv |-> tv, sv |-> sv]
Cases == {<<Mk("Fourier", 2, 0, 0, 0, 0), <<1, 2>>>>, <<Mk("Sinc", 2, 0, 0, 0, 0), <<3, 7>>>>,
          <<Mk("Sigmoid", 2, 0, 2, 0, 0), <<4, 7>>>>, <<Mk("Sigmoid", 2, 1, 0, 0, 0), <<4, 7>>>>, <<Mk("Sigmoid", 1, 0, 0, 0, 0), <<6>>>>,
          <<Mk("SigmoidTimeDep", 1, 0, 1, 1, 0), <<6>>>>, <<Mk("SigmoidAllParas", 1, 0, 1, 2, 0), <<5>>>>}
Init == \E c \in Cases : p = c[1] /\ w = c[2] /\ x = [k \in 1..NC(c[1]) |-> 0]
Next == \E k \in 1..NC(p), d \in {-1, 1} : x[k] + d \in -R..R /\ x' = [x EXCEPT ![k] = @ + d] /\ UNCHANGED <<p, w>>
Spec == Init /\ [][Next]_vars

Four(y, j) == BSum([k \in 1..p.n |-> y[2 * k - 1] * Sin(p.q * w[k] * (j - 1)) + y[2 * k] * Cos(p.q * w[k] * (j - 1))], p.n)
Val(y, j) == IF p.basis = "Fourier" THEN Four(y, j) ELSE SigVal(p, y, w, j - 1)
Pulse(y) == [j \in 1..p.N |-> Val(y, j)]
Neg(y) == [k \in 1..Len(y) |-> -y[k]]
Sig == IsSig(p)
Known(y) == \A j \in 1..p.N : Val(y, j) # UNDEF
(* coefficients zero: nothing; the oracle accepts its own pulse and refuses one with a changed value *)
Nothing == (p.basis \in {"Fourier", "Sigmoid"} /\ \A k \in 1..Len(x) : x[k] = 0) => \A j \in 1..p.N : Val(x, j) = 0
Own == p.basis \in {"Fourier", "Sigmoid"} /\ Known(x) => Shape(p, x, w, Pulse(x))
Wrong == p.basis \in {"Fourier", "Sigmoid"} /\ Known(x) => \A j \in 1..p.N : ~Shape(p, x, w, [Pulse(x) EXCEPT ![j] = @ + 2500])
(* linear in the amplitudes *)
Odd == p.basis \in {"Fourier", "Sigmoid"} /\ Known(x) => \A j \in 1..p.N : Val(Neg(x), j) = -Val(x, j)
(* ideal steps: nothing before the begin and after the end, and levels are sums of amplitudes *)
Ends == Sig /\ p.S = 0 /\ p.O > 0 /\ Fits(p, x, w) => Val(x, 1) = 0 /\ Val(x, p.N) = 0
Level == p.basis = "Sigmoid" /\ p.S = 0 => \A j \in 1..p.N :
           (j - 1 > p.O /\ j - 1 < Final(p) - p.O /\ \A k \in 1..p.n : j - 1 # w[k])
              => Val(x, j) = 10000 * (x[1] + BSum([k \in 1..p.n |-> IF w[k] < j - 1 THEN x[k + 1] ELSE 0], p.n))
(* a smooth step is symmetric about its middle *)
Symmetric == \A S \in 1..3, d \in -16..16 : Phi(d, S) # UNDEF => Phi(d, S) + Phi(-d, S) = 10000
Rising == \A S \in 0..3, d, e \in -16..16 : (d < e /\ Phi(d, S) # UNDEF /\ Phi(e, S) # UNDEF) => Phi(d, S) <= Phi(e, S)
(* what a shifted step looks like is also what the weaker rule for moved steps accepts *)
Moved == HasT(p) /\ p.S = 0 /\ Fits(p, x, w) /\ Known(x) => MovedOk(p, x, w, Pulse(x))
Circle == \A m \in -12..24 : Close((Sin(m) * Sin(m) + Cos(m) * Cos(m)) \div 10000, 10000, 2) /\ Sin(-m) = -Sin(m) /\ Sin(m + 12) = Sin(m)
=============================================================================
