------------------------------ MODULE Lockstep ------------------------------
(***************************************************************************)
(* Two optimizations in lockstep (a 2-safety specification).  rel = 1: the *)
(* same seed and the same values; rel = -1: the second one maximizes the   *)
(* negative of what the first one minimizes.  Everything the two show must *)
(* be equal; values in the user's sign must be related by rel, values in   *)
(* the search's own (minimization) units must be equal.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

LBIG == 999999999
LC(name, broken) == IF broken THEN {name} ELSE {}
LODD == -777777777
Rel(r, a, b) == IF {a, b} \cap {LBIG, -LBIG, LODD} # {} THEN a = b \/ (a # LODD /\ b = r * a) ELSE b = r * a
RelSeq(r, p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Rel(r, p[i], q[i])
Disk(r, p, q) == /\ p.k = q.k
                 /\ p.k = 1 => Rel(r, p.f, q.f) /\ p.c = q.c /\ p.it = q.it /\ p.si = q.si

LInit == [n |-> 0, off |-> FALSE]

LViol(s, r, a, b) ==
  IF s.off THEN {}
  ELSE IF a.e # b.e THEN {"Y_" \o (IF a.e = "none" THEN b.e ELSE a.e)}
  ELSE CASE a.e = "eval" -> LC("Y_controls", a.c # b.c) \cup LC("Y_value", ~Rel(r, a.f, b.f)) \cup LC("Y_file", ~Disk(r, a.disk, b.disk))
         [] a.e = "si" -> LC("Y_start", a.x # b.x)
         [] a.e = "ask" -> LC("Y_point", a.x # b.x \/ a.it # b.it)
         [] a.e = "ret" -> LC("Y_return", a.v # b.v)
         [] a.e = "note" -> LC("Y_return", a.v # b.v \/ a.x # b.x)
         [] a.e = "sie" -> LC("Y_reason", a.r # b.r \/ a.n # b.n)
         [] a.e = "plot" -> LC("Y_plot", a.it # b.it \/ ~Rel(r, a.f, b.f))
         [] a.e = "ctl" -> LC("Y_signal", a.c # b.c)
         [] a.e = "end" -> LC("Y_result", ~Rel(r, a.fom, b.fom)) \cup LC("Y_count", a.n # b.n)
                           \cup LC("Y_best", a.best # b.best \/ a.par # b.par)
                           \cup LC("Y_reason", a.r # b.r \/ a.hr # b.hr \/ a.exc # b.exc \/ a.run # b.run)
                           \cup LC("Y_lists", ~RelSeq(r, a.flist, b.flist) \/ a.ilist # b.ilist \/ a.npar # b.npar \/ a.nfreq # b.nfreq)
                           \cup LC("Y_std", a.sd # b.sd)
                           \cup LC("Y_log", ~RelSeq(r, a.lf, b.lf))
                           \cup LC("Y_file", ~Disk(r, a.disk, b.disk))
                           \cup LC("Y_crash", ~({a.exc, b.exc} \subseteq {"", "runaway", "KeyboardInterrupt"}))
                           \cup LC("Y_values", a.intact # 1 \/ b.intact # 1)
         [] OTHER -> {}
LStep(s, a, b) == [s EXCEPT !.n = @ + 1, !.off = @ \/ a.e # b.e]
=============================================================================
