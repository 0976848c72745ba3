----------------------------- MODULE ResultsMC -----------------------------
(* Design model of the best-controls file: two pulses and two parameters with every choice of names over a small alphabet
   are stored one after the other.  RULE = "any": any unused key which begins with the name; RULE = "count": the name with
   the index appended until it is unused (what the library does).  The invariant says that the complete file satisfies the
   clauses of Results. *)
EXTENDS Results, TLC
CONSTANTS RULE
VARIABLES cfg, ent, i
vars == <<cfg, ent, i>>
A == {"a", "a1", "time_grid_for_a", "FoM", "file"}
SUF == {"", "1", "2", "11", "22", "111", "222", "3", "4"}
MetaEnt == <<[k |-> "FoM", v |-> 0], [k |-> "pulse_names", v |-> 0], [k |-> "iteration_number", v |-> 0]>>
RES == {"FoM", "pulse_names", "iteration_number", "file", "allow_pickle"}
Init == /\ cfg \in [pn : [1..2 -> A], qn : [1..2 -> A]] /\ ent = MetaEnt /\ i = 1
Used(k) == k \in RES \/ \E q \in 1..Len(ent) : ent[q].k = k \/ ent[q].k = GRID \o k
Name == IF i <= 2 THEN cfg.pn[i] ELSE cfg.qn[i - 2]
Idx == IF i <= 2 THEN i ELSE i - 2
RECURSIVE Count(_)
Count(k) == IF Used(k) THEN Count(k \o (IF Idx = 1 THEN "1" ELSE "2")) ELSE k
Keys == IF RULE = "count" THEN {Count(Name)}
        ELSE IF Used(Name) THEN {Name \o x : x \in {y \in SUF : ~Used(Name \o y)}} ELSE {Name}
Store == /\ i <= 4
         /\ \E k \in Keys :
              ent' = IF i <= 2 THEN ent \o <<[k |-> k, v |-> 100 + i], [k |-> GRID \o k, v |-> -i]>>
                     ELSE Append(ent, [k |-> k, v |-> 100 + 50 + i - 2])
         /\ i' = i + 1 /\ cfg' = cfg
Next == Store
Spec == Init /\ [][Next]_vars
File == [e |-> "file", ok |-> 1, n |-> 1, ent |-> ent, f |-> 0, others |-> 0,
         meta |-> [fom |-> 0, it |-> 1, st |-> 0, pn |-> cfg.pn, qn |-> cfg.qn]]
Complete == i = 5 => DViol(DInit(cfg), File) = {}
Unique == \A p, q \in 1..Len(ent) : p # q => ent[p].k # ent[q].k
CanStore == i <= 4 => Keys # {}
=============================================================================
