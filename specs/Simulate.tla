---- MODULE Simulate ----
(***************************************************************************
 simulate_lightcurves: which observations an object gets, and what they say.
 Built from Pipeline (the model's band fluxes) and Noise (the surveys' errors).

 cfg: pipe     a configuration of Pipeline (its samples are the simulated objects)
      effects  Seq(effect) added to the model beforehand
      names    Seq(filter name): the filter numbers of the surveys
      place    per object the place in the sky (places are farther apart than any field of view)
      mask     [lo, hi] per object the closed interval of the times of interest, which the model tells (empty: all times)
      t0       per object the reference time of the model, or <<>> without one
      surveys  Seq([nz: a configuration of Noise, bands: filter name -> passband, all: sees every place,
                    extra: column -> Seq(integer) per row])
 State: p (Pipeline), nz (Noise per survey), ex (extra columns per survey), c
 ***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
P == INSTANCE Pipeline
N == INSTANCE Noise WITH MCKinds <- {}

RECURSIVE WithEffects(_, _)
WithEffects(p, es) == IF es = <<>> THEN p ELSE WithEffects(P!AddEffect(p, 1, es[1]), Tail(es))
InitState(c) == [p |-> WithEffects(P!InitState(c.pipe), c.effects), c |-> c,
                 nz |-> [j \in 1..Len(c.surveys) |-> N!InitState(c.surveys[j].nz)],
                 ex |-> [j \in 1..Len(c.surveys) |-> c.surveys[j].extra]]
Res(s, out) == [s |-> s, out |-> out]
Model(s, j) == [s.p EXCEPT !.c.bands = s.c.surveys[j].bands]
Name(s, j, r) == s.c.names[s.nz[j].filter[r]]

(* The window is closed, around the object's own reference time; without one there is no window *)
InWindow(s, op, i, t) ==
  s.c.t0 = <<>> \/ /\ op.before = <<>> \/ t >= s.c.t0[i] - op.before[1]
                   /\ op.after = <<>> \/ t <= s.c.t0[i] + op.after[1]
Sees(s, j, i, r) == s.c.surveys[j].all \/ s.nz[j].pos[r] = s.c.place[i]
(* The times of interest are used when this is asked for *)
OfInterest(s, op, i, t) == ~op.mask \/ s.c.mask.lo = <<>> \/ (s.c.mask.lo[i] <= t /\ t <= s.c.mask.hi[i])
Kept(s, op, i, t) == InWindow(s, op, i, t) /\ OfInterest(s, op, i, t)
Rows(s, op, i, j) == N!Sorted({r \in 1..s.nz[j].n : Sees(s, j, i, r) /\ Kept(s, op, i, s.nz[j].time[r])})
Known(s, op) == \A i \in 1..s.p.c.n : \A j \in 1..Len(s.nz) :
                  LET q == Rows(s, op, i, j) IN \A k \in 1..Len(q) : Name(s, j, q[k]) \in DOMAIN s.c.surveys[j].bands
Row(s, op, i, j, r) ==
  LET t == s.nz[j].time[r]
      f == Name(s, j, r)
      flux == P!BandOf(Model(s, j), 1, i, t, f) IN
  [survey |-> j - 1, t |-> t, f |-> f, flux |-> flux, err |-> N!Err2(s.nz[j], r, flux),
   cols |-> [x \in 1..Len(op.cols) |-> IF op.cols[x] \in DOMAIN s.ex[j] THEN <<s.ex[j][op.cols[x]][r]>> ELSE <<>>]]
RECURSIVE Flat(_, _)
Flat(F(_), n) == IF n = 0 THEN <<>> ELSE Flat(F, n - 1) \o F(n)
Curve(s, op, i) == Flat(LAMBDA j : LET q == Rows(s, op, i, j) IN [k \in 1..Len(q) |-> Row(s, op, i, j, q[k])], Len(s.nz))
SimAct(s, op) ==
  IF op.num <= 0 \/ op.groups # Len(s.nz) THEN Res(s, [r |-> "ValueError"])
  ELSE IF Len(s.nz) > 1 /\ P!IsBand(s.p.c.objs[1]) THEN Res(s, [r |-> "ValueError"])
  ELSE IF op.bad \/ ~Known(s, op) THEN Res(s, [r |-> "KeyError"])
  ELSE Res(s, [r |-> "sim",
               objs |-> [i \in 1..s.p.c.n |-> [id |-> i - 1, place |-> s.c.place[i],
                          t0 |-> IF s.c.t0 = <<>> THEN <<>> ELSE <<s.c.t0[i]>>,
                          z |-> IF s.p.c.objs[1].z = <<>> THEN <<>> ELSE <<s.p.c.objs[1].z[i]>>,
                          rows |-> Curve(s, op, i)]]])

(* Light curves without noise on a grid of rest frame phases *)
FreeAct(s, op) ==
  LET o == s.p.c.objs[1]
      z(i) == IF o.z = <<>> THEN <<1, 1>> ELSE o.z[i]
      zero(i) == IF s.c.t0 = <<>> THEN 0 ELSE s.c.t0[i]
      num(i) == (op.hi[i] - op.lo[i] + op.step[i] - 1) \div op.step[i]
      phase(i, k) == op.lo[i] + (k - 1) * op.step[i]
      time(i, k) == zero(i) + (phase(i, k) * z(i)[1]) \div z(i)[2]
      bands == s.c.surveys[op.group].bands IN
  Res(s, [r |-> "free",
          objs |-> [i \in 1..s.p.c.n |-> [ph |-> [k \in 1..num(i) |-> phase(i, k)], t |-> [k \in 1..num(i) |-> time(i, k)],
                     flux |-> [f \in DOMAIN bands |-> [k \in 1..num(i) |-> P!BandOf(Model(s, op.group), 1, i, time(i, k), f)]]]]])

KeepAct(s, op) ==
  LET rows == N!Sorted(N!Set(op.rows)) IN
  Res([s EXCEPT !.nz[op.survey] = N!Keep(@, rows), !.ex[op.survey] = [x \in DOMAIN @ |-> N!Pick(@[x], rows)]], [r |-> "ok"])
Step(s, op) ==
  CASE op.k = "sim" -> SimAct(s, op)
    [] op.k = "free" -> FreeAct(s, op)
    [] op.k = "keep" -> KeepAct(s, op)
Obs(s) == [n |-> [j \in 1..Len(s.nz) |-> s.nz[j].n]]

\* ---------------------------------------------------------------- properties of the specification
StateInv(s) ==
  /\ P!StateInv(s.p)
  /\ \A j \in 1..Len(s.nz) : s.nz[j].made = "ok" /\ \A x \in DOMAIN s.ex[j] : Len(s.ex[j][x]) = s.nz[j].n
StepInv(s, op, out, s2) ==
  /\ op.k \in {"sim", "free"} => s2 = s
  /\ out.r = "sim" =>
       \A i \in 1..Len(out.objs) :
         LET rows == out.objs[i].rows IN
         \* surveys in order, only observations of the object's place, nothing outside of the window or of no interest
         /\ \A k \in 1..(Len(rows) - 1) : rows[k].survey <= rows[k + 1].survey
         /\ \A k \in 1..Len(rows) : Kept(s, op, i, rows[k].t)
         \* an observation of the object that is left out is outside of the window or of no interest
         /\ \A j \in 1..Len(s.nz) : LET kept == {k \in 1..Len(rows) : rows[k].survey = j - 1} IN
              Cardinality(kept) = Cardinality({r \in 1..s.nz[j].n : Sees(s, j, i, r) /\ Kept(s, op, i, s.nz[j].time[r])})
         \* the same passband at the same time gives the same flux, whichever the survey
         /\ \A k, l \in 1..Len(rows) :
              /\ rows[k].t = rows[l].t /\ rows[k].f = rows[l].f
              /\ s.c.surveys[rows[k].survey + 1].bands[rows[k].f] = s.c.surveys[rows[l].survey + 1].bands[rows[k].f]
              => rows[k].flux = rows[l].flux
  \* a wider window only adds observations
  /\ op.k = "sim" => \A i \in 1..s.p.c.n : \A j \in 1..Len(s.nz) :
       N!Set(Rows(s, op, i, j)) \subseteq N!Set(Rows(s, [op EXCEPT !.before = <<>>, !.after = <<>>, !.mask = FALSE], i, j))

\* ---------------------------------------------------------------- finite instance
Obj(m, p, z) == [m |-> m, p |-> p, z |-> z, t0 |-> <<12, 24, 36>>, lo |-> <<>>, hi |-> <<>>, ext |-> [k |-> "zero", v |-> 0]]
Const == Obj("const", [b |-> <<5, 7, 9>>], <<<<1, 1>>, <<2, 1>>, <<3, 1>>>>)
Poly == Obj("poly", [a |-> <<1, 0, 2>>, b |-> <<1, 3, 0>>, c |-> <<0, 0, 0>>], <<<<1, 1>>, <<2, 1>>, <<3, 1>>>>)
BandObj == Obj("bpoly", [a |-> <<1, 2, 3>>, b |-> <<1, 20, 5>>], <<>>)
B1 == [g |-> <<<<12, 1>>, <<24, 2>>>>, r |-> <<<<12, 0>>, <<24, 3>>, <<48, 1>>>>]
B2 == [g |-> <<<<24, 1>>, <<36, 1>>>>, r |-> <<<<12, 1>>, <<48, 1>>>>]
Num(v) == [t |-> "num", v |-> << <<0, v>> >>]
Table(flt, time, pos) ==
  [kind |-> "fake", n |-> 4, filter |-> flt, time |-> time, pos |-> pos,
   col |-> [sky |-> <<<<0, 1>>, <<1, 1>>, <<5, 1>>, <<2, 1>>>>],
   sv |-> [zp_per_band |-> [t |-> "map", v |-> << <<1, <<1, 2>> >>, <<2, <<2, 1>> >> >>], psf_footprint |-> Num(<<3, 1>>),
           exptime |-> Num(<<2, 1>>), nexposure |-> Num(<<1, 1>>), read_noise |-> Num(<<2, 1>>)]]
S1 == [nz |-> Table(<<1, 2, 1, 2>>, <<12, 24, 36, 0>>, <<0, 0, 1, 0>>), bands |-> B1, all |-> FALSE, extra |-> [a |-> <<1, 2, 3, 4>>]]
S2 == [nz |-> Table(<<2, 2, 1, 1>>, <<24, 0, 12, 48>>, <<1, 0, 0, 1>>), bands |-> B2, all |-> TRUE, extra |-> [b |-> <<5, 6, 7, 8>>]]
MCConfigs ==
  {[pipe |-> [n |-> 3, objs |-> <<o>>, bands |-> B1, fid |-> [g |-> 1, r |-> 2]], effects |-> e, names |-> <<"g", "r">>,
    mask |-> [lo |-> <<12, 0, 24>>, hi |-> <<24, 12, 12>>], place |-> <<0, 1, 0>>, t0 |-> <<12, 24, 36>>, surveys |-> sv] :
      o \in {Const, Poly, BandObj}, sv \in {<<S1>>, <<S2>>, <<S1, S2>>},
      e \in {<<>>, <<[t |-> "dim", rest |-> FALSE, name |-> "flux_fraction", v |-> <<<<1, 2>>, <<1, 1>>, <<1, 4>>>>, c |-> 0, d |-> 0]>>}}
MCOps(s) ==
  {[k |-> "sim", num |-> 3, groups |-> Len(s.nz), bad |-> FALSE, before |-> b, after |-> a, cols |-> c, mask |-> m]
     : b \in {<<>>, <<0>>, <<12>>}, a \in {<<>>, <<12>>}, c \in {<<"a", "b">>}, m \in {TRUE, FALSE}}
  \cup {[k |-> "keep", survey |-> j, rows |-> <<2, 3, 4>>] : j \in {x \in 1..Len(s.nz) : s.nz[x].n = 4}}
  \cup {[k |-> "free", group |-> j, lo |-> <<-24, 0, -12>>, hi |-> <<24, 12, 13>>, step |-> <<24, 12, 12>>] : j \in 1..Len(s.nz)}
====
