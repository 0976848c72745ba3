------------------------------ MODULE Evolution ------------------------------
(***************************************************************************)
(* Piecewise constant evolution.  cfg: n (number of qubits).               *)
(*   "first" ops: the initial propagator is the product of these rotations *)
(*   "slice" the next time slice: ops, rotations about commuting strings   *)
(*           which act at the same time; tilt # 0: instead the rotation    *)
(*           about (ops[1] + s ops[2])/sqrt(2) by tilt half-turns          *)
(*   "store" fn: which implementation; list: the propagators it stored     *)
(*   "final" fn, u: the final propagator it returned, nf: 1 with the       *)
(*           initial propagator                                            *)
(*   "kept"  ok: drift, controls, drive and initial propagator unchanged   *)
(* Matrices observed are in 10^-6.                                         *)
(***************************************************************************)
EXTENDS Quantum

EC(name, broken) == IF broken THEN {name} ELSE {}
Dim(cfg) == Pow2(cfg.n)
EInit(cfg) == [cfg |-> cfg, first |-> SOne(Dim(cfg)), es |-> <<>>]
SliceOf(e, n) == IF e.tilt # 0 THEN Tilted(PauliString(e.ops[1][1]), PauliString(e.ops[2][1]), e.s, e.tilt) ELSE Product(n, e.ops)
RECURSIVE Total(_, _)
Total(es, u) == IF es = <<>> THEN u ELSE Total(Tail(es), SMul(Head(es), u))

EViol(s, e) ==
  CASE e.e = "first" -> {}
    [] e.e = "slice" -> EC("E_spec", ~Unitary(SliceOf(e, Dim(s.cfg))))
    [] e.e = "store" ->
         EC("E_number", Len(e.list) < Len(s.es))
         \cup EC("E_store", \E i \in 1..Len(s.es) : i <= Len(e.list) /\ ~NearS(e.list[i], s.es[i], e.tol))
         \cup EC("E_extra", \E i \in (Len(s.es) + 1)..Len(e.list) : ~NearS(e.list[i], [m |-> Zeros(Dim(s.cfg)), d |-> 0], e.tol))
    [] e.e = "final" -> EC("E_final", ~NearS(e.u, Total(s.es, IF e.nf = 1 THEN s.first ELSE SOne(Dim(s.cfg))), e.tol))
    [] e.e = "kept" -> EC("E_kept", e.ok = 0)
    [] e.e = "end" -> EC("X_crash", e.exc = 1)
    [] OTHER -> {"unknown_event"}
EStep(s, e) ==
  CASE e.e = "first" -> [s EXCEPT !.first = Product(Dim(s.cfg), e.ops)]
    [] e.e = "slice" -> [s EXCEPT !.es = Append(@, SliceOf(e, Dim(s.cfg)))]
    [] OTHER -> s
=============================================================================
