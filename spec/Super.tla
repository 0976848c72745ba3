------------------------------- MODULE Super -------------------------------
(***************************************************************************)
(* Random super-parameters of the chopped bases.                           *)
(*                                                                         *)
(* A draw is a sequence of records [s |-> subdivision (from 0), f |->      *)
(* position inside it in 10^-9].  cfg.pulses[i]: n (number of              *)
(* super-parameters).                                                      *)
(*   "run"  a new optimization: seed (0: none)                             *)
(*   "si"   a search starts; d[i]: the draw reported for it in the         *)
(*          results, for pulse i                                           *)
(*   "dec"  pulse p was evaluated with the coefficient of vector v alone:  *)
(*          d is the super-parameter its shape has, ok = 0 if it is no     *)
(*          shape of the basis                                             *)
(*   "lin"  pulse p with several coefficients; ok = 0: not the sum         *)
(*   "end"  rep: number of searches in the report; par[k] = 0: the         *)
(*          coefficients reported for search k are not its best ones       *)
(*   "cover" summary over all runs: hit[k] = number of tenths of           *)
(*          subdivision k that were ever drawn, n draws                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

SC(name, broken) == IF broken THEN {name} ELSE {}
SAbs(v) == IF v < 0 THEN -v ELSE v
ONE == 1000000000
SNP(s) == Len(s.cfg.pulses)

(* one super-parameter in every subdivision *)
Strat(d, n) == Len(d) = n /\ \A k \in 1..n : d[k].s = k - 1 /\ d[k].f >= 0 /\ d[k].f < ONE
SameDraw(d, e) == Len(d) = Len(e) /\ Len(d) > 0 /\ \A k \in 1..Len(d) : d[k].f = e[k].f
Flat(d) == Len(d) > 1 /\ \A k \in 2..Len(d) : d[k].f = d[1].f
Near(a, b) == \/ a.s = b.s /\ SAbs(a.f - b.f) <= 300000
              \/ SAbs(a.s - b.s) = 1 /\ (a.f + b.f <= 300000 + ONE) /\ (a.f + b.f >= ONE - 300000) /\ (a.f <= 300000 \/ b.f <= 300000)

SInit(cfg) == [cfg |-> cfg, run |-> 0, seed |-> 0, seeds |-> {}, si |-> 0, cur |-> <<>>, past |-> {}]

(* entries of past: [run, seed, si, p, d] *)
Repeats(s, i, d) ==
  \E q \in s.past : SameDraw(q.d, d) /\ ~(q.run # s.run /\ q.seed # 0 /\ q.seed = s.seed /\ q.si = s.si + 1 /\ q.p = i)

SViol(s, e) ==
  CASE e.e = "run" -> {}
    [] e.e = "si" ->
         IF Len(e.d) # SNP(s) THEN {"S_number"}
         ELSE SC("S_strat", \E i \in 1..SNP(s) : ~Strat(e.d[i], s.cfg.pulses[i].n))
              \cup SC("S_flat", \E i \in 1..SNP(s) : Flat(e.d[i]))
              \cup SC("S_repeat", (\E i \in 1..SNP(s) : Repeats(s, i, e.d[i]))
                                  \/ (\E i, j \in 1..SNP(s) : i < j /\ SameDraw(e.d[i], e.d[j])))
    [] e.e = "dec" -> SC("S_shape", e.ok = 0)
                      \cup SC("S_constant", e.ok = 1 /\ s.si > 0 /\ e.p <= Len(s.cur) /\ e.v <= Len(s.cur[e.p])
                                            /\ ~Near(e.d, s.cur[e.p][e.v]))
    [] e.e = "lin" -> SC("S_linear", e.ok = 0)
    [] e.e = "end" -> SC("X_crash", e.exc = 1)
                      \cup SC("S_report", e.exc = 0 /\ e.rep # s.si)
                      \cup SC("S_para", e.exc = 0 /\ (Len(e.par) # s.si \/ \E k \in 1..Len(e.par) : e.par[k] = 0))
    [] e.e = "cover" -> SC("S_cover", e.n >= 300 /\ \E k \in 1..Len(e.hit) : e.hit[k] # 10)
    [] OTHER -> {"unknown_event"}

SStep(s, e) ==
  CASE e.e = "run" -> [s EXCEPT !.run = @ + 1, !.seed = e.seed, !.si = 0, !.cur = <<>>]
    [] e.e = "si" -> [s EXCEPT !.si = @ + 1, !.cur = e.d,
                       !.past = @ \cup {[run |-> s.run, seed |-> s.seed, si |-> s.si + 1, p |-> i, d |-> e.d[i]] : i \in 1..Len(e.d)}]
    [] OTHER -> s
=============================================================================
