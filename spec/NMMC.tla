-------------------------------- MODULE NMMC --------------------------------
(* Design model of the simplex method: every sequence of values over 0..K is tried, from a fixed start simplex.  The
   invariants are stated on the history of values, not on the simplex.  Every complete run is printed as a script and
   replayed into the real search. *)
EXTENDS NMSearch, TLC, Json, IOUtils
CONSTANTS DIM, ADAPT, K, N
VARIABLES s, h
vars == <<s, h>>
Start == [i \in 1..(DIM + 1) |-> [j \in 1..DIM |-> IF i = j + 1 THEN 84000 + 9000 * j ELSE 20000 * j - 50000]]
Cfg == [dim |-> DIM, adaptive |-> ADAPT, start |-> Start, maxev |-> N, xatol |-> 0, fatol |-> 0, tlim |-> 0, cbn |-> 0,
        dsec |-> 0, navg |-> 1]
Point(c) == LET t == Target(Cfg, c) IN [j \in 1..DIM |-> t.x[j] \div t.M]
Ev(c, f) == [e |-> "call", x |-> Point(c), it |-> c.it, f |-> f, t |-> 0, note |-> 0, nv |-> 0]
AtEnd == \A c \in s.cands : c.end /\ MayStop(s, c, [t |-> 0])
Init == s = NInit(Cfg) /\ h = <<>>
Call == \E c \in s.cands, f \in 0..K :
          LET e == Ev(c, f) IN /\ ~AtEnd /\ ~s.dead /\ NViol(s, e) = {} /\ s' = NStep(s, e) /\ h' = Append(h, f)
Finish == /\ AtEnd /\ ~s.dead /\ PrintT("SCRIPT " \o ToJson(h)) /\ s' = [s EXCEPT !.dead = TRUE] /\ h' = h
Next == Call \/ Finish
Spec == Init /\ [][Next]_vars

MinOf(q) == CHOOSE m \in {q[i] : i \in 1..Len(q)} : \A i \in 1..Len(q) : m <= q[i]
Boundary1 == \A c \in s.cands : c.ph = "reflect"
BestKept == Boundary1 => \A c \in s.cands : c.f[1] = MinOf(h)
SortedInv == Boundary1 => \A c \in s.cands : \A i \in 1..DIM : c.f[i] <= c.f[i + 1]
Agree == \A c, e \in s.cands : c.f = e.f \/ ~Boundary1
OnePhase == \A c, e \in s.cands : c.ph = e.ph
(* an iteration needs at most two evaluations plus a shrink of DIM points *)
Progress == Len(h) <= Cfg.maxev + DIM + 2
NonEmpty == s.cands # {}
CanGoOn == AtEnd \/ s.dead \/ \E c \in s.cands : NViol(s, Ev(c, 0)) = {}
=============================================================================
