------------------------------ MODULE PulseMC ------------------------------
(* Design model of the assembly: a pulse with three bins goes through super-iterations with every choice of coefficients;
   the invariants are the statements about limits, order and partition, evaluated on the operators of Pulse. *)
EXTENDS Pulse, TLC
CONSTANTS K, SIS
VARIABLES p, base, x, n
vars == <<p, base, x, n>>
X == {-K, 0, 1, K}
LIMS == {-4, 0, 3, 20}
Mk(lo, up, sh, ops, g, s, over) ==
  [bins |-> 2, T |-> 12, lo |-> lo, up |-> up, shrink |-> sh, ops |-> ops, guess |-> [k |-> "lin", a |-> g, b |-> 1, l |-> <<>>],
   scale |-> [k |-> "step", a |-> s, b |-> 1, l |-> <<>>], kind |-> 1, nv |-> 1, av |-> 1, over |-> over, grow |-> 0, basis |-> ""]
OPSETS == {<<"default">>, <<"add_base_pulse", "add_new_update_pulse", "limit_pulse">>,
           <<"limit_pulse", "add_new_update_pulse", "scale_pulse">>, <<"add_initial_guess", "nothing", "limit_pulse">>}
Init == /\ \E lo, up \in LIMS, sh \in {0, 1}, ops \in OPSETS, g \in {-3, 0}, s \in {-1, 2}, over \in {0, 1} :
               p = Mk(lo, up, sh, ops, g, s, over)
        /\ base = <<0, 0>> /\ x = <<0, 0>> /\ n = 0
Si == /\ n < SIS
      /\ \E y \in [1..2 -> X] :
           /\ x' = y
           /\ base' = IF p.over = 1 THEN Contr(p, y, 0) ELSE [b \in 1..2 |-> base[b] + Contr(p, y, 0)[b]]
      /\ n' = n + 1 /\ p' = p
Next == Si
Spec == Init /\ [][Next]_vars
Now == Assembled(p, base, x, 0)
Pre == [b \in 1..2 |-> base[b] + Contr(p, x, 0)[b]]
Limited == LimitLast(p) => InLimits(p, Now)
Fits == InLimits(p, Pre) => Limit(p, Pre) = Pre
CutFix == \A b \in 1..2 : (Pre[b] >= Lo(p) * 100 /\ Pre[b] <= Up(p) * 100) => Cut(p, Pre)[b] = Pre[b]
Order == (Pre[1] <= Pre[2]) => (Limit(p, Pre)[1] <= Limit(p, Pre)[2])
Twice == \A b \in 1..2 : PAbs(Limit(p, Limit(p, Pre))[b] - Limit(p, Pre)[b]) <= 1
(* continuity: new coefficients 0 on the new base give what the best coefficients gave on the old one *)
Continuous == p.over = 0 => \A y \in [1..2 -> X] :
  Assembled(p, base, y, 0) = Assembled(p, [b \in 1..2 |-> base[b] + Contr(p, y, 0)[b]], <<0, 0>>, 0)
     \/ "add_base_pulse" \notin {Ops(p)[k] : k \in 1..Len(Ops(p))} \/ "add_new_update_pulse" \notin {Ops(p)[k] : k \in 1..Len(Ops(p))}
RECURSIVE Cat(_, _, _)
Cat(d, i, v) == IF i > Len(d) THEN <<>> ELSE Part(d, i, v) \o Cat(d, i + 1, v)
Partition == \A d \in [1..3 -> 1..2] : LET v == [k \in 1..PSum(d) |-> k] IN Cat(d, 1, v) = v
=============================================================================
