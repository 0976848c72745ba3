------------------------------ MODULE CmaesMC ------------------------------
(* Design model of the CMA-ES protocol: every sequence of values over 0..K and every pattern of zero / non-zero draws is
   tried, with all stop reasons.  The invariants speak about the history of the calls.  Complete behaviours are printed
   and replayed into the real search. *)
EXTENDS Cmaes, TLC, Json
CONSTANTS POP, K, N, CBN, FATOL
VARIABLES s, h, fin
vars == <<s, h, fin>>
Cfg == [dim |-> 1, pop |-> POP, x0 |-> <<40>>, sv |-> <<40>>, maxev |-> N, fatol |-> FATOL, tlim |-> 0, cbn |-> CBN]
Pt(z) == IF s.calls = 0 THEN 40 ELSE (s.mean[1] \div 10000) + 10 * z
Ev(f, z) == [e |-> "call", x |-> <<Pt(z)>>, it |-> s.g, f |-> f, t |-> 0, z |-> <<z>>]
Init == s = CInit(Cfg) /\ h = <<>> /\ fin = "no"
Call == \E f \in 0..K, z \in {0, 4} :
          /\ fin = "no" /\ CViol(s, Ev(f, z)) = {}
          /\ s' = CStep(s, Ev(f, z)) /\ h' = Append(h, <<f, z>>) /\ UNCHANGED fin
Best == CHOOSE i \in 1..Len(s.lf) : \A j \in 1..Len(s.lf) : s.lf[i] <= s.lf[j]
Finish == /\ fin = "no" /\ s.end
          /\ \E r \in {1, 3, 4, 6} :
               LET e == [e |-> "end", exc |-> 0, x |-> s.lpts[Best], f |-> s.lf[Best], nit |-> s.g, n |-> s.calls, r |-> r,
                         mut |-> 0, t |-> 0]
               IN CViol(s, e) = {} /\ PrintT("SCRIPT " \o ToJson([f |-> [i \in 1..Len(h) |-> h[i][1]], z |-> [i \in 1..Len(h) |-> h[i][2]]]))
          /\ fin' = "yes" /\ UNCHANGED <<s, h>>
Next == Call \/ Finish
Spec == Init /\ [][Next]_vars

Whole == fin = "yes" => Len(h) % POP = 0 /\ Len(h) > 0
Budget == Len(h) <= ((N + POP - 1) \div POP) * POP
(* a finished run had a reason *)
Reason == fin = "yes" => \/ Len(h) >= N \/ (CBN > 0 /\ Len(h) >= CBN)
                         \/ LET q == {h[i][1] : i \in (Len(h) - POP + 1)..Len(h)} IN SetMax(q) - SetMin(q) <= 2 * FATOL
(* never two boundaries with a reason in a row *)
Prompt == CBN > 0 => Len(h) <= ((CBN + POP - 1) \div POP) * POP
ResultIsLast == fin = "yes" => s.lf[Best] = SetMin({h[i][1] : i \in (Len(h) - POP + 1)..Len(h)})
Enabled == fin = "yes" \/ (s.end /\ Must(s, 0)) \/ \E z \in {0, 4} : CViol(s, Ev(0, z)) = {}
=============================================================================
