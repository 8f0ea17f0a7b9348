---- MODULE Pipeline ----
(***************************************************************************
 Evaluation of models: redshift, wavelength extrapolation, effects in both
 frames, composite models, and integration over passbands, in exact
 arithmetic on a lattice of integer times and wavelengths.

 A fraction is <<numerator, denominator>>, reduced, with a positive denominator.
 Every per-sample value is a sequence with one entry per sample.

 cfg: n       number of samples
      objs    Seq(object): a tree, the first one is the model that is evaluated
      bands   filter name -> Seq(<<wavelength, response>>) (response not normalized)
      fid     filter name -> number of the filter, for what depends on the filter
 Object: m     model kind, p: its parameters (see Flux0 and Band0)
               p.wt  weights of the choice of "rand", "sed" and "bstatic", or <<>>
               "add":  p.kids objects, p.w weights (fractions)
               "rand": p.kids objects, p.sel per sample the index in kids of the selected object
         z     per sample 1 + redshift as a fraction, or <<>> without a redshift
         t0    Seq(time) per sample (or <<>>)
         lo, hi  <<>> or <<wavelength bound>>
         ext   [k |-> "zero" | "const" | "last" | "lin" | "exp", v |-> integer]

 State: cfg, ap: per object whether redshift is applied,
        re, oe: per object its rest frame and observer frame effects
        ep: per object parameter name -> per-sample values; far: position asked for (0 outside of an evaluation)
 Effect: [t |-> "dim" | "ramp", rest, name, v: Seq(fraction) per sample, c, d]
         a parameter of that name that the model already has keeps its first value
 ***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Fr(n, d) == IF n = 0 THEN <<0, 1>> ELSE LET g == Gcd(Abs(n), Abs(d)) IN
            IF d > 0 THEN <<n \div g, d \div g>> ELSE <<(-n) \div g, (-d) \div g>>
Q(n) == <<n, 1>>
Mul(a, b) == LET x == Fr(a[1], b[2])
                 y == Fr(b[1], a[2]) IN Fr(x[1] * y[1], x[2] * y[2])
Add(a, b) == LET g == Gcd(a[2], b[2]) IN Fr(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
RECURSIVE SumF(_, _)
SumF(F(_), n) == IF n = 0 THEN <<0, 1>> ELSE Add(SumF(F, n - 1), F(n))
RECURSIVE SumI(_, _)
SumI(F(_), n) == IF n = 0 THEN 0 ELSE SumI(F, n - 1) + F(n)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)


Set(q) == {q[k] : k \in 1..Len(q)}

\* ---------------------------------------------------------------- rest frame models
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Cell(xs, x) == IF x = xs[Len(xs)] THEN Len(xs) - 1 ELSE CHOOSE k \in 1..(Len(xs) - 1) : xs[k] <= x /\ x < xs[k + 1]
(* Linear interpolation of ys over xs at x, which lies in the range of xs *)
Lin(xs, ys, x) == LET k == Cell(xs, x) IN
  Fr(ys[k] * (xs[k + 1] - x) + ys[k + 1] * (x - xs[k]), xs[k + 1] - xs[k])
(* Bilinear interpolation, constant beyond the ends of the time grid *)
Grid(g, t, w) ==
  LET x == Clamp(t, g.ts[1], g.ts[Len(g.ts)])
      k == Cell(g.ts, x)
      a == Lin(g.ws, g.f[k], w)
      b == Lin(g.ws, g.f[k + 1], w)
      d == g.ts[k + 1] - g.ts[k] IN
  Add(Mul(a, Fr(g.ts[k + 1] - x, d)), Mul(b, Fr(x - g.ts[k], d)))
Quarter == <<0, 1, 0, -1>>
(* The flux of the i-th sample at rest time t and wavelength w, inside the model's wavelengths.
   far: the position asked for (halvings of the brightness of an extended object away from its centre) *)
Flux0(o, far, i, t, w) ==
  CASE o.m = "const" -> Q(o.p.b[i])
    [] o.m = "gauss" -> Fr(o.p.b[i], Pow2(far))
    [] o.m = "step" -> IF o.t0[i] <= t /\ t <= o.p.t1[i] THEN Q(o.p.b[i]) ELSE Q(0)
    [] o.m = "lin" -> Q(o.p.b[i] + o.p.s[i] * w)
    [] o.m = "poly" -> Q(o.p.a[i] * t + o.p.b[i] * w + o.p.c[i] * t * w)
    [] o.m = "sin" -> Q(o.p.b[i] + o.p.a[i] * Quarter[((t - o.t0[i]) % 4) + 1])
    [] o.m = "period" -> Add(Fr(o.p.a[i] * ((t - o.t0[i]) % o.p.per[i]), o.p.per[i]), Q(o.p.b[i] * w))
    [] o.m = "sed" -> LET q == o.p.tabs[o.p.sel[i] + 1] IN
                      Lin([k \in 1..Len(q) |-> q[k][1]], [k \in 1..Len(q) |-> q[k][2]], w)
    [] o.m = "spline" -> Mul(Q(o.p.a[i]), Grid(o.p.g, t - o.t0[i], w))
IsBand(o) == o.m \in {"bpoly", "bstatic"}
IsMulti(o) == o.m \in {"add", "rand"}
(* The band flux of a model that is defined by band fluxes *)
Band0(o, i, t, f, fid) ==
  CASE o.m = "bpoly" -> Q(o.p.a[i] * t + o.p.b[i] * fid)
    [] o.m = "bstatic" -> Q(o.p.tabs[o.p.sel[i] + 1][f])
Lo(o, i) == IF o.m = "sed" THEN <<o.p.tabs[o.p.sel[i] + 1][1][1]>> ELSE o.lo
Hi(o, i) == IF o.m = "sed" THEN LET q == o.p.tabs[o.p.sel[i] + 1] IN <<q[Len(q)][1]>> ELSE o.hi
Outside(ext, edge, w, last) ==
  LET d == Abs(w - edge) IN
  CASE ext.k = "zero" -> Q(0)
    [] ext.k = "const" -> Q(ext.v)
    [] ext.k = "last" -> last
    [] ext.k = "lin" -> IF d >= ext.v THEN Q(0) ELSE Mul(last, Fr(ext.v - d, ext.v))
    [] ext.k = "exp" -> Mul(last, Fr(1, Pow2(d \div ext.v)))   \* halves over ext.v
Rest(o, far, i, t, w) ==
  IF Lo(o, i) # <<>> /\ w < Lo(o, i)[1] THEN Outside(o.ext, Lo(o, i)[1], w, Flux0(o, far, i, t, Lo(o, i)[1]))
  ELSE IF Hi(o, i) # <<>> /\ w > Hi(o, i)[1] THEN Outside(o.ext, Hi(o, i)[1], w, Flux0(o, far, i, t, Hi(o, i)[1]))
  ELSE Flux0(o, far, i, t, w)

\* ---------------------------------------------------------------- effects
Effect(e, pars, i, f, t, w) ==
  LET k == pars[e.name][i] IN
  IF e.t = "dim" THEN Mul(f, k) ELSE Add(Mul(f, k), Q(e.c * t + e.d * w))
RECURSIVE Apply(_, _, _, _, _, _)
Apply(es, pars, i, f, t, w) == IF es = <<>> THEN f ELSE Apply(Tail(es), pars, i, Effect(es[1], pars, i, f, t, w), t, w)
Moved(s, k, i) == s.ap[k] /\ s.c.objs[k].z # <<>> /\ s.c.objs[k].z[i] # <<1, 1>>
(* The sum or the selected one of the objects of a composite model *)
Combine(o, i, F(_)) ==
  IF o.m = "add" THEN SumF(LAMBDA j : Mul(o.p.w[j], F(o.p.kids[j])), Len(o.p.kids)) ELSE F(o.p.kids[o.p.sel[i]])
(* The flux density of object k at observer time t and wavelength w *)
RECURSIVE Sed(_, _, _, _, _)
Leaf(s, k, i, t, w) ==
  LET o == s.c.objs[k]
      mv == Moved(s, k, i)
      z == IF mv THEN o.z[i] ELSE <<1, 1>>
      rt == IF mv THEN ((t - o.t0[i]) * z[2]) \div z[1] + o.t0[i] ELSE t
      rw == (w * z[2]) \div z[1]
      f == Apply(s.re[k], s.ep[k], i, Rest(o, s.far, i, rt, rw), rt, rw) IN
  Mul(f, z)
Sed(s, k, i, t, w) ==
  LET o == s.c.objs[k] IN
  Apply(s.oe[k], s.ep[k], i,
        IF IsMulti(o) THEN Combine(o, i, LAMBDA j : Sed(s, j, i, t, w)) ELSE Leaf(s, k, i, t, w), t, w)
(* Times and wavelengths must map to the lattice *)
OnLattice(s, ts, ws) ==
  \A k \in 1..Len(s.c.objs) : \A i \in 1..s.c.n : Moved(s, k, i) /\ s.c.objs[k].t0 # <<>> =>
     LET z == s.c.objs[k].z[i] IN
     /\ \A j \in 1..Len(ts) : ((ts[j] - s.c.objs[k].t0[i]) * z[2]) % z[1] = 0
     /\ \A j \in 1..Len(ws) : (ws[j] * z[2]) % z[1] = 0
Norm(b) == SumI(LAMBDA j : (b[j][2] + b[j + 1][2]) * (b[j + 1][1] - b[j][1]), Len(b) - 1)
Integral(b, F(_)) ==
  Mul(SumF(LAMBDA j : Mul(Q(b[j + 1][1] - b[j][1]), Add(Mul(Q(b[j][2]), F(b[j][1])), Mul(Q(b[j + 1][2]), F(b[j + 1][1])))), Len(b) - 1),
      Fr(1, Norm(b)))
(* The band flux of object k: effects of composites and band models apply to the band flux *)
RECURSIVE BandOf(_, _, _, _, _)
BandOf(s, k, i, t, f) ==
  LET o == s.c.objs[k]
      x == s.c.fid[f] IN
  IF IsBand(o) THEN Apply(s.oe[k], s.ep[k], i, Band0(o, i, t, f, x), t, x)
  ELSE IF IsMulti(o) THEN Apply(s.oe[k], s.ep[k], i, Combine(o, i, LAMBDA j : BandOf(s, j, i, t, f)), t, x)
  ELSE Integral(s.c.bands[f], LAMBDA w : Sed(s, k, i, t, w))

\* ---------------------------------------------------------------- actions
NoPar == [x \in {} |-> 0]
\* a parameter of the model itself that an effect may share
Own(o) == IF o.m \in {"const", "step", "sin", "gauss"} THEN [x \in {"brightness"} |-> [i \in 1..Len(o.p.b) |-> Q(o.p.b[i])]] ELSE NoPar
InitState(c) == [c |-> c, far |-> 0, ap |-> [k \in 1..Len(c.objs) |-> c.objs[k].z # <<>>],
                 re |-> [k \in 1..Len(c.objs) |-> <<>>], oe |-> [k \in 1..Len(c.objs) |-> <<>>],
                 ep |-> [k \in 1..Len(c.objs) |-> Own(c.objs[k])]]
Res(s, out) == [s |-> s, out |-> out]
First(pars, e) == IF e.name \in DOMAIN pars THEN pars
                  ELSE [x \in DOMAIN pars \cup {e.name} |-> IF x = e.name THEN e.v ELSE pars[x]]
(* Rest frame effects reach every object below, observer frame effects stay at the model *)
RECURSIVE AddEffect(_, _, _), AddKids(_, _, _)
AddEffect(s, k, e) ==
  LET o == s.c.objs[k] IN
  IF IsMulti(o) /\ e.rest THEN AddKids(s, o.p.kids, e)
  ELSE LET rest == e.rest /\ ~IsBand(o) IN
       [s EXCEPT !.ep[k] = First(@, e), !.re[k] = IF rest THEN Append(@, e) ELSE @, !.oe[k] = IF rest THEN @ ELSE Append(@, e)]
AddKids(s, kids, e) == IF kids = <<>> THEN s ELSE AddKids(AddEffect(s, kids[1], e), Tail(kids), e)
EffectAct(s, op) == Res(AddEffect(s, 1, op.e), [r |-> "ok"])
ApplyAct(s, op) == Res([s EXCEPT !.ap = [k \in 1..Len(s.c.objs) |-> op.on]], [r |-> "ok"])
Kids(o, i) == IF o.m = "add" THEN Set(o.p.kids) ELSE {o.p.kids[o.p.sel[i]]}
(* The objects that are evaluated for a sample *)
RECURSIVE Used(_, _, _)
Used(s, k, i) == {k} \cup IF IsMulti(s.c.objs[k]) THEN UNION {Used(s, j, i) : j \in Kids(s.c.objs[k], i)} ELSE {}
Leaves(s, i) == {k \in Used(s, 1, i) : ~IsMulti(s.c.objs[k])}
NoSed(s) == \E i \in 1..s.c.n : \E k \in Used(s, 1, i) : LET o == s.c.objs[k] IN
               IsMulti(o) /\ \E j \in Set(o.p.kids) : IsBand(s.c.objs[j])
NoZ(s) == \E i \in 1..s.c.n : \E k \in Leaves(s, i) : LET o == s.c.objs[k] IN
             ~IsBand(o) /\ s.ap[k] /\ (o.z = <<>> \/ (o.t0 = <<>> /\ o.z[i] # <<1, 1>>))
SedAct(s, op) ==
  IF NoSed(s) THEN Res(s, [r |-> "TypeError"])
  ELSE IF NoZ(s) THEN Res(s, [r |-> "ValueError"])
  ELSE Res(s, [r |-> "sed", v |-> [i \in 1..s.c.n |-> [a \in 1..Len(op.ts) |-> [b \in 1..Len(op.ws) |-> Sed([s EXCEPT !.far = op.far], 1, i, op.ts[a], op.ws[b])]]]])
BandAct(s, op) ==
  IF \E a \in 1..Len(op.fs) : op.fs[a] \notin DOMAIN s.c.bands THEN Res(s, [r |-> "KeyError"])
  ELSE IF op.ts # <<>> /\ NoZ(s) THEN Res(s, [r |-> "ValueError"])
  ELSE Res(s, [r |-> "band", v |-> [i \in 1..s.c.n |-> [a \in 1..Len(op.ts) |-> BandOf(s, 1, i, op.ts[a], op.fs[a])]]])
(* The selections the models made themselves: never one of zero weight *)
Chooses(o) == o.m \in {"rand", "sed", "bstatic"} /\ o.p.wt # <<>>
Base(o) == IF o.m = "rand" THEN 0 ELSE 1
PickAct(s, op) == Res(s, [r |-> IF \A k \in 1..Len(s.c.objs) : Chooses(s.c.objs[k]) =>
                                      \A i \in 1..s.c.n : s.c.objs[k].p.wt[s.c.objs[k].p.sel[i] + Base(s.c.objs[k])] > 0
                                   THEN "ok" ELSE "a choice of zero weight"])
(* Observed frequencies agree with the weights: within seven standard deviations *)
DrawAct(s, op) ==
  LET w == IF s.c.objs[1].p.wt = <<>> THEN [k \in 1..Len(op.count) |-> 1] ELSE s.c.objs[1].p.wt
      total == SumI(LAMBDA k : w[k], Len(w))
      num == SumI(LAMBDA k : op.count[k], Len(w)) IN
  Res(s, [r |-> IF /\ num = op.num
                   /\ \A k \in 1..Len(w) : LET d == op.count[k] * total - num * w[k] IN
                        IF w[k] \in {0, total} THEN d = 0 ELSE d * d <= 49 * num * w[k] * (total - w[k])
                THEN "ok" ELSE "frequencies do not follow the weights"])
(* The wavelengths an object states for a sample: those of the selected object, or of every object of a sum *)
RECURSIVE Range(_, _, _)
Range(s, k, i) ==
  LET o == s.c.objs[k] IN
  CASE o.m = "rand" -> Range(s, o.p.kids[o.p.sel[i]], i)
    [] o.m = "add" -> [m |-> "add", lo |-> <<>>, hi |-> <<>>, kids |-> [j \in 1..Len(o.p.kids) |-> Range(s, o.p.kids[j], i)]]
    [] IsBand(o) -> [m |-> "leaf", lo |-> <<>>, hi |-> <<>>, kids |-> <<>>]
    [] OTHER -> [m |-> "leaf", lo |-> Lo(o, i), hi |-> Hi(o, i), kids |-> <<>>]
RangeAct(s, op) == Res(s, [r |-> "range", v |-> [i \in 1..s.c.n |-> Range(s, 1, i)]])
(* Filters that do not match the times, or none for a group *)
BadAct(s, op) == Res(s, [r |-> "ValueError"])
Step(s, op) ==
  CASE op.k = "range" -> RangeAct(s, op)
    [] op.k = "bad" -> BadAct(s, op)
    [] op.k = "pick" -> PickAct(s, op)
    [] op.k = "draw" -> DrawAct(s, op)
    [] op.k = "effect" -> EffectAct(s, op)
    [] op.k = "apply" -> ApplyAct(s, op)
    [] op.k = "sed" -> SedAct(s, op)
    [] op.k = "band" -> BandAct(s, op)
Obs(s) == [ne |-> [k \in 1..Len(s.c.objs) |-> Len(s.re[k]) + Len(s.oe[k])]]

\* ---------------------------------------------------------------- properties of the specification
RECURSIVE Below(_, _)
Below(s, k) == {k} \cup IF IsMulti(s.c.objs[k]) THEN UNION {Below(s, j) : j \in Set(s.c.objs[k].p.kids)} ELSE {}
StateInv(s) ==
  /\ Below(s, 1) = 1..Len(s.c.objs)
  /\ \A k \in 1..Len(s.c.objs) : \A e \in Set(s.re[k]) \cup Set(s.oe[k]) : e.name \in DOMAIN s.ep[k]
  \* composites and band models have no rest frame
  /\ \A k \in 1..Len(s.c.objs) : IsMulti(s.c.objs[k]) \/ IsBand(s.c.objs[k]) => s.re[k] = <<>>
  \* a rest frame effect is in every leaf, in the same order
  /\ \A k, j \in 2..Len(s.c.objs) : ~IsMulti(s.c.objs[k]) /\ ~IsMulti(s.c.objs[j]) =>
        s.re[k] \o s.oe[k] = s.re[j] \o s.oe[j]
StepInv(s, op, out, s2) ==
  /\ op.k \in {"sed", "band", "range", "bad"} => s2 = s
  /\ out.r = "sed" => OnLattice(s, op.ts, op.ws)
  /\ out.r = "band" => \A a \in 1..Len(op.ts) : LET b == s.c.bands[op.fs[a]] IN OnLattice(s, <<op.ts[a]>>, [j \in 1..Len(b) |-> b[j][1]])
  \* a flat spectrum has its own value in every band
  /\ out.r = "band" /\ s.c.objs[1].m = "const" /\ s.re[1] = <<>> /\ s.oe[1] = <<>> =>
       \A i \in 1..s.c.n : \A a \in 1..Len(op.ts) :
         out.v[i][a] = IF Moved(s, 1, i) THEN Mul(Q(s.c.objs[1].p.b[i]), s.c.objs[1].z[i]) ELSE Q(s.c.objs[1].p.b[i])
  \* equal observations have equal band fluxes
  /\ out.r = "band" => \A i \in 1..s.c.n : \A a, b \in 1..Len(op.ts) :
       op.ts[a] = op.ts[b] /\ op.fs[a] = op.fs[b] => out.v[i][a] = out.v[i][b]

\* ---------------------------------------------------------------- finite instance
Full(m, p, z, t0, lo, hi, ext) == [m |-> m, p |-> p, z |-> z, t0 |-> t0, lo |-> lo, hi |-> hi, ext |-> ext]
Zero == [k |-> "zero", v |-> 0]
O(m, p, z) == Full(m, p, z, <<12, 24>>, <<>>, <<>>, Zero)
Poly == O("poly", [a |-> <<1, 3>>, b |-> <<2, -1>>, c |-> <<0, 1>>], <<<<2, 1>>, <<4, 1>>>>)
Bounded == Full("lin", [b |-> <<5, 1>>, s |-> <<2, 3>>], <<<<1, 1>>, <<2, 1>>>>, <<12, 24>>, <<9>>, <<18>>, [k |-> "lin", v |-> 12])
Flat == O("const", [b |-> <<5, 7>>], <<<<1, 1>>, <<3, 1>>>>)
BandObj == O("bpoly", [a |-> <<1, 2>>, b |-> <<10, 20>>], <<>>)
Bands == [g |-> <<<<12, 1>>, <<24, 2>>>>, r |-> <<<<12, 0>>, <<24, 3>>, <<48, 1>>>>]
Cfg(objs) == [n |-> 2, objs |-> objs, bands |-> Bands, fid |-> [g |-> 1, r |-> 2]]
AddOf(kids, w) == O("add", [kids |-> kids, w |-> w], <<>>)
RandOf(kids, sel) == O("rand", [kids |-> kids, sel |-> sel, wt |-> <<>>], <<>>)
MCConfigs == {Cfg(<<Poly>>), Cfg(<<Bounded>>), Cfg(<<Flat>>), Cfg(<<BandObj>>),
              Cfg(<<AddOf(<<2, 3>>, <<<<1, 2>>, <<2, 1>>>>), Poly, Bounded>>),
              Cfg(<<AddOf(<<2, 3>>, <<<<1, 2>>, <<2, 1>>>>), BandObj, Poly>>),
              Cfg(<<RandOf(<<3, 2>>, <<2, 1>>), Bounded, Poly>>),
              Cfg(<<AddOf(<<2, 5>>, <<<<1, 1>>, <<1, 2>>>>), RandOf(<<3, 4>>, <<1, 2>>), Poly, Flat, Bounded>>)}
E(t, rest, name, v, c) == [t |-> t, rest |-> rest, name |-> name, v |-> v, c |-> c, d |-> 2 * c]
HasBand(s) == \E k \in 1..Len(s.c.objs) : IsBand(s.c.objs[k])
MCOps(s) ==
  {[k |-> "effect", e |-> E("ramp", rest, "p1", <<<<1, 2>>, <<3, 1>>>>, 1)] : rest \in BOOLEAN}
  \cup {[k |-> "effect", e |-> E("dim", rest, "flux_fraction", <<<<1, 4>>, <<1, 4>>>>, 0)] : rest \in BOOLEAN}
  \cup (IF HasBand(s) THEN {} ELSE {[k |-> "apply", on |-> b] : b \in BOOLEAN})
  \cup (IF IsBand(s.c.objs[1]) THEN {} ELSE {[k |-> "sed", far |-> 0, ts |-> <<24, 0, 48>>, ws |-> <<24, 12, 60>>]})
  \cup {[k |-> "range"]} \cup {[k |-> "bad", ts |-> <<24, 0>>, fs |-> fs, none |-> fs = <<>>] : fs \in {<<>>, <<"g">>, <<"g", "r", "g">>}}
  \cup {[k |-> "band", ts |-> <<24, 48, 0, 24>>, fs |-> <<"r", "g", "r", "r">>]}
====
