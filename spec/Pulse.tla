------------------------------- MODULE Pulse -------------------------------
(***************************************************************************)
(* Assembly of the controls from the search vector.  Amplitudes are        *)
(* integers in hundredths.                                                 *)
(*                                                                         *)
(* cfg.pulses[i]: bins, T, lo, up, shrink, ops (sequence of operation      *)
(*   names; <<"default">> for the default), guess, scale (values on the    *)
(*   grid are computed here), kind (1 piecewise, 2 the harness' integer    *)
(*   chopped basis, 3 a library basis whose shape is not specified), nv    *)
(*   (basis vectors), av (amplitude variation), over (overwrite).          *)
(* cfg.params[j]: lo, up, v0, av.                                          *)
(* Events: "si" (a search starts: x0, sig, dims, w), "eval" (x, pulses,    *)
(*   grids, params, f; ex, exq: what the pulses and the parameters exceed  *)
(*   their limits by), "end" (bare; out: controls handed out; rp:          *)
(*   parameters in the result file).                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

LC(name, broken) == IF broken THEN {name} ELSE {}
PAbs(v) == IF v < 0 THEN -v ELSE v
PMax(a, b) == IF a > b THEN a ELSE b
PMin(a, b) == IF a < b THEN a ELSE b
RECURSIVE PSum(_)
PSum(q) == IF q = <<>> THEN 0 ELSE Head(q) + PSum(Tail(q))
SeqMax(q) == CHOOSE m \in {q[i] : i \in 1..Len(q)} : \A i \in 1..Len(q) : q[i] <= m
SeqMin(q) == CHOOSE m \in {q[i] : i \in 1..Len(q)} : \A i \in 1..Len(q) : m <= q[i]

DEFAULT == <<"add_initial_guess", "add_base_pulse", "add_new_update_pulse", "scale_pulse", "limit_pulse">>
Ops(p) == IF p.ops = <<"default">> THEN DEFAULT ELSE SelectSeq(p.ops, LAMBDA o : o \in {DEFAULT[k] : k \in 1..5})
Lo(p) == PMin(p.lo, p.up)
Up(p) == PMax(p.lo, p.up)

Step(p) == IF p.bins = 1 THEN 0 ELSE p.T \div (p.bins - 1)
Grid(p) == [b \in 1..p.bins |-> (b - 1) * Step(p)]
(* functions of time: [k, a, b, l]: "lin" a + b t, "step" a before 6 and b from 6 on, "list" l, "none" *)
FOf(fn, p, none) == [b \in 1..p.bins |->
  LET t == Grid(p)[b] IN
  CASE fn.k = "lin" -> fn.a + fn.b * t
    [] fn.k = "step" -> IF t < 6 THEN fn.a ELSE fn.b
    [] fn.k = "list" -> fn.l[b]
    [] OTHER -> none]

Cut(p, q) == [b \in 1..Len(q) |-> PMax(PMin(q[b], Up(p) * 100), Lo(p) * 100)]
Ratio(aim, cur) == (aim * 5000) \div cur
Shrink(p, q) ==
  LET ub == Up(p) * 100
      lb == Lo(p) * 100
      mx == SeqMax(q)
      mn == SeqMin(q)
      q1 == IF mx > ub THEN [b \in 1..Len(q) |-> mn + ((q[b] - mn) * Ratio(ub - mn, mx - mn)) \div 5000] ELSE q
      mx1 == IF mx > ub THEN ub ELSE mx
      q2 == IF mn < lb THEN [b \in 1..Len(q) |-> mx1 - ((mx1 - q1[b]) * Ratio(mx1 - lb, mx1 - mn)) \div 5000] ELSE q1
  IN IF mn >= ub \/ mx <= lb THEN Cut(p, q) ELSE q2
Limit(p, q) == IF p.shrink = 1 THEN Shrink(p, q) ELSE Cut(p, q)
(* a shrink computed here is exact only up to this many hundredths *)
Slop(p) == IF p.shrink = 1 THEN 60 ELSE 1

(* the new contribution of the coefficients *)
Contr(p, x, w) == [b \in 1..p.bins |->
  IF p.kind = 1 THEN x[b] * 100
  ELSE 100 * PSum([i \in 1..Len(x) |-> x[i] * ((b + i + w) % 3)])]

Guess(p) == LET g == FOf(p.guess, p, 0) IN Limit(p, [b \in 1..p.bins |-> 100 * g[b]])
Scale(p, q) == LET s == FOf(p.scale, p, 1) IN
  IF p.scale.k = "two" THEN [b \in 1..p.bins |-> p.scale.a * q[b] + 100 * p.scale.b * Grid(p)[b]]
  ELSE [b \in 1..p.bins |-> s[b] * q[b]]
Apply(op, p, q, base, c) ==
  CASE op = "add_initial_guess" -> [b \in 1..p.bins |-> q[b] + Guess(p)[b]]
    [] op = "add_base_pulse" -> [b \in 1..p.bins |-> q[b] + base[b]]
    [] op = "add_new_update_pulse" -> [b \in 1..p.bins |-> q[b] + c[b]]
    [] op = "scale_pulse" -> Scale(p, q)
    [] op = "limit_pulse" -> Limit(p, q)
RECURSIVE Build(_, _, _, _, _)
Build(ops, p, q, base, c) == IF ops = <<>> THEN q ELSE Build(Tail(ops), p, Apply(Head(ops), p, q, base, c), base, c)
Assembled(p, base, x, w) == Build(Ops(p), p, [b \in 1..p.bins |-> 0], base, Contr(p, x, w))

(* the coordinates of pulse i / parameter j *)
Off(dims, i) == PSum(SubSeq(dims, 1, i - 1))
Part(dims, i, x) == SubSeq(x, Off(dims, i) + 1, Off(dims, i) + dims[i])
NP(cfg) == Len(cfg.pulses)
PartP(cfg, dims, j, x) == x[PSum(dims) + j]
ClampP(pr, v) == PMin(PMax(pr.lo * 100, v), pr.up * 100)

(* number of coefficients by kind; g: the generation of a basis which changes its size *)
Dim(p, g) == CASE p.kind = 1 -> p.bins
               [] p.kind = 2 -> IF p.grow = 1 THEN p.nv + (g % 2) ELSE p.nv
               [] p.kind = 3 -> CASE p.basis \in {"Fourier", "Chebyshev"} -> 2 * p.nv
                                  [] p.basis \in {"Walsh", "DummyBasis"} -> 2 * p.nv
                                  [] p.basis \in {"Sigmoid", "Sigmoid0"} -> p.nv + 1
                                  [] p.basis \in {"SigmoidTimeDep", "SigmoidSigmas", "Sigmoid1"} -> 2 * p.nv + 1
                                  [] p.basis = "Sigmoid2" -> 3 * p.nv + 1
                                  [] OTHER -> p.nv
(* width of the start distribution in hundredths; the trigonometric bases divide by sqrt(2) *)
Width(p) == IF p.kind = 3 /\ p.basis \in {"Fourier", "Chebyshev", "Sinc", "Walsh", "DummyBasis"} THEN (p.av * 7071) \div 100 ELSE p.av * 100

PInit(cfg) == [cfg |-> cfg, g |-> 0, dims |-> [i \in 1..NP(cfg) |-> 0], w |-> [i \in 1..NP(cfg) |-> 0],
               base |-> [i \in 1..NP(cfg) |-> [b \in 1..cfg.pulses[i].bins |-> 0]],
               pv |-> [j \in 1..Len(cfg.params) |-> cfg.params[j].v0 * 100], best |-> 999999999, bx |-> <<>>, mem |-> <<>>,
               rec |-> <<>>]

IntX(s, x) == \A k \in 1..Len(x) : x[k] % 100 = 0
Small(x) == [k \in 1..Len(x) |-> x[k] \div 100]

(* after a search: the best coefficients go into the base *)
Fold(s) ==
  IF s.g = 0 THEN s
  ELSE [s EXCEPT
    !.base = [i \in 1..NP(s.cfg) |->
       LET p == s.cfg.pulses[i] IN
       IF p.kind = 3 THEN s.base[i]
       ELSE IF s.bx = <<>> THEN (IF p.over = 1 THEN [b \in 1..p.bins |-> 0] ELSE s.base[i])
       ELSE LET c == Contr(p, Small(Part(s.dims, i, s.bx)), s.w[i])
            IN IF p.over = 1 THEN c ELSE [b \in 1..p.bins |-> s.base[i][b] + c[b]]],
    !.pv = [j \in 1..Len(s.cfg.params) |->
       ClampP(s.cfg.params[j], IF s.bx = <<>> THEN s.pv[j] ELSE PartP(s.cfg, s.dims, j, s.bx))]]
Folded(s) == Fold(s)

InLimits(p, q) == \A b \in 1..Len(q) : q[b] >= Lo(p) * 100 /\ q[b] <= Up(p) * 100
(* what the values exceed the limits by, in 10^-9; cutting is exact, rescaling up to rounding *)
Exceeds(p, x) == x > IF p.shrink = 1 THEN 10000 ELSE 0
LimitLast(p) == Len(Ops(p)) > 0 /\ Ops(p)[Len(Ops(p))] = "limit_pulse"

Differ(q, r) == Len(q) # Len(r) \/ \E j \in 1..Len(q) : PAbs(q[j] - r[j]) > 1
ParOut(cfg, q) == \E j \in 1..Len(cfg.params) : q[j] < cfg.params[j].lo * 100 \/ q[j] > cfg.params[j].up * 100

PViol(s, e) ==
  CASE e.e = "si" ->
         LET d == [i \in 1..NP(s.cfg) |-> Dim(s.cfg.pulses[i], e.g)]
             n == PSum(d) + Len(s.cfg.params)
             f == Folded(s)
             k == PSum(d)
         IN IF Len(e.x0) # n \/ Len(e.sig) # n THEN {"I_dim"}
            ELSE LC("I_start", \E q \in 1..n : PAbs(e.x0[q] - (IF q <= k THEN 0 ELSE f.pv[q - k])) > 1)
                 \cup LC("I_width", \E i \in 1..NP(s.cfg) : \E q \in 1..d[i] :
                            PAbs(e.sig[Off(d, i) + q] - Width(s.cfg.pulses[i])) > 1)
                 \cup LC("I_width", \E j \in 1..Len(s.cfg.params) : e.sig[k + j] # s.cfg.params[j].av * 100)
    [] e.e = "eval" ->
         IF Len(e.pulses) # NP(s.cfg) \/ Len(e.params) # Len(s.cfg.params) \/ Len(e.grids) # NP(s.cfg) THEN {"I_number"}
         ELSE IF \E i \in 1..NP(s.cfg) : Len(e.pulses[i]) # s.cfg.pulses[i].bins \/ Len(e.grids[i]) # s.cfg.pulses[i].bins
              THEN {"I_bins"}
         ELSE LC("I_grid", \E i \in 1..NP(s.cfg) : \E b \in 1..s.cfg.pulses[i].bins :
                              e.grids[i][b] # 100 * Grid(s.cfg.pulses[i])[b])
         \cup LC("L_limits", \E i \in 1..NP(s.cfg) : LimitLast(s.cfg.pulses[i]) /\
                                  (~InLimits(s.cfg.pulses[i], e.pulses[i]) \/ Exceeds(s.cfg.pulses[i], e.ex[i])))
         \cup LC("L_param", \E j \in 1..Len(s.cfg.params) : e.exq[j] > 0 \/ e.params[j] < s.cfg.params[j].lo * 100 \/ e.params[j] > s.cfg.params[j].up * 100)
         \cup IF e.x = <<>> THEN {}
              ELSE IF Len(e.x) # PSum(s.dims) + Len(s.cfg.params) THEN {"I_dim"}
              ELSE LC("A_param", \E j \in 1..Len(s.cfg.params) :
                            PAbs(e.params[j] - ClampP(s.cfg.params[j], PartP(s.cfg, s.dims, j, e.x))) > 1)
              \cup UNION {
                 LET p == s.cfg.pulses[i]
                     q == Assembled(p, s.base[i], Small(Part(s.dims, i, e.x)), s.w[i])
                     off == \E b \in 1..p.bins : PAbs(q[b] - e.pulses[i][b]) > Slop(p)
                 IN LC("A_pulse", off) \cup LC("L_shrink", off /\ p.shrink = 1 /\ LimitLast(p))
                    \cup LC("L_cut", off /\ p.shrink = 0 /\ LimitLast(p))
                 : i \in {i \in 1..NP(s.cfg) : s.cfg.pulses[i].kind # 3}}
              \cup LC("I_couple", \E i \in 1..NP(s.cfg) : \E m \in 1..Len(s.mem) :
                        Part(s.dims, i, s.mem[m].x) = Part(s.dims, i, e.x)
                        /\ \E b \in 1..s.cfg.pulses[i].bins : PAbs(s.mem[m].pulses[i][b] - e.pulses[i][b]) > 1)
              \cup LC("W_constant", \E i \in 1..NP(s.cfg) : s.cfg.pulses[i].kind = 2 /\ e.w[i] # s.w[i])
    [] e.e = "end" ->
         IF e.exc = 1 THEN {"X_crash"}
         ELSE LET f == Folded(s) IN
              UNION {LC("L_limits", \E i \in 1..NP(s.cfg) : LimitLast(s.cfg.pulses[i]) /\
                                  (~InLimits(s.cfg.pulses[i], e.out[m].pulses[i]) \/ Exceeds(s.cfg.pulses[i], e.out[m].ex[i])))
                     \cup LC("L_param", ParOut(s.cfg, e.out[m].params) \/ \E j \in 1..Len(s.cfg.params) : e.out[m].exq[j] > 0)
                     \cup LC("B_best", s.rec # <<>> /\
                          (Differ(e.out[m].params, s.rec[1].params) \/ \E i \in 1..NP(s.cfg) : LET p == s.cfg.pulses[i] IN
                             Ops(p) = DEFAULT /\ p.over = 0 /\
                             \E b \in 1..p.bins : PAbs(e.out[m].pulses[i][b] - s.rec[1].pulses[i][b]) > 1)) : m \in 1..Len(e.out)}
              \cup LC("L_param", e.rp # <<>> /\ ParOut(s.cfg, e.rp))
              \cup LC("B_best", e.rp # <<>> /\ s.rec # <<>> /\ Differ(e.rp, s.rec[1].params))
              \cup IF e.bare = <<>> THEN {}
              ELSE LC("B_bare", \E i \in 1..NP(s.cfg) : s.cfg.pulses[i].kind # 3 /\ \E b \in 1..s.cfg.pulses[i].bins :
                                  Len(e.bare[i]) # s.cfg.pulses[i].bins \/ PAbs(e.bare[i][b] - f.base[i][b]) > 1)
    [] OTHER -> {"unknown_event"}

PStep(s, e) ==
  CASE e.e = "si" -> LET f == Folded(s) IN
         [f EXCEPT !.g = e.g, !.dims = [i \in 1..NP(s.cfg) |-> Dim(s.cfg.pulses[i], e.g)], !.w = e.w, !.bx = <<>>, !.mem = <<>>]
    [] e.e = "eval" ->
         LET n == IF e.f < s.best THEN [s EXCEPT !.best = e.f, !.rec = <<[pulses |-> e.pulses, params |-> e.params]>>] ELSE s IN
         IF e.x = <<>> \/ Len(e.x) # PSum(s.dims) + Len(s.cfg.params) THEN n
         ELSE [n EXCEPT !.bx = IF e.f < s.best THEN e.x ELSE @,
                        !.mem = Append(@, [x |-> e.x, pulses |-> e.pulses])]
    [] OTHER -> s
=============================================================================
