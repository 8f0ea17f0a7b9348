---- MODULE Templates ----
(***************************************************************************
 Light curve templates: interpolation of given curves at t - t0, per filter,
 outside of their range the baseline, periodic curves repeated; one or several
 templates; the flux density made of boxes that give the same band fluxes.

 Times and wavelengths are integers, fluxes fractions <<n, d>>.  A magnitude is written
 as the exponent v of the flux 10^v it stands for (v = 0 is 31.4 mag).

 cfg: n     number of samples
      t0    Seq(time) per sample, or <<>> for a model without a reference time
      multi whether it is a model with several templates (always, unless one curve set is given)
      w     weights of the templates, or <<>>
      lcs   Seq(template):
              form "curves": [form, curves: Seq([f, p: Seq(<<t, v>>)]), ref, per, mag, base: <<>> or <<Seq(<<f, v>>)>>]
              form "table" (LCLIB): [form, time: Seq, type: Seq("S"|"T") or <<>>, col: Seq([f, v: Seq]),
                                     recur: "" or the class, pick: <<>> or <<Seq(f)>>, ref: <<>> or <<t>>]
      bands Seq([f, p: Seq(<<wavelength, response>>)])
 State: made, c, lcs: Seq([curves, ref, per: 0 or the period, base])
 ***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Fr(n, d) == IF n = 0 THEN <<0, 1>> ELSE LET g == Gcd(Abs(n), Abs(d)) IN
            IF d > 0 THEN <<n \div g, d \div g>> ELSE <<(-n) \div g, (-d) \div g>>
Add(a, b) == LET g == Gcd(a[2], b[2]) IN Fr(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
Mul(a, b) == LET x == Fr(a[1], b[2])
                 y == Fr(b[1], a[2]) IN Fr(x[1] * y[1], x[2] * y[2])
RECURSIVE SumF(_, _)
SumF(F(_), n) == IF n = 0 THEN <<0, 1>> ELSE Add(SumF(F, n - 1), F(n))
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
Set(q) == {q[k] : k \in 1..Len(q)}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Names(curves) == {curves[k].f : k \in 1..Len(curves)}
Curve(curves, f) == (CHOOSE k \in 1..Len(curves) : curves[k].f = f)
Lookup(pairs, f) == pairs[CHOOSE k \in 1..Len(pairs) : pairs[k][1] = f][2]

\* ---------------------------------------------------------------- construction
Flux(mag, v) == IF mag THEN Pow10(v) ELSE v
No(why) == [made |-> why, curves |-> <<>>, ref |-> 0, per |-> 0, base |-> <<>>]
Rising(p) == \A k \in 1..(Len(p) - 1) : p[k][1] < p[k + 1][1]
(* curves: Seq([f, p]) with fluxes; base: <<>> or <<Seq(<<f, flux>>)>> *)
Template(curves, ref, per, base) ==
  LET moved(by) == [k \in 1..Len(curves) |-> [curves[k] EXCEPT !.p = [x \in 1..Len(@) |-> <<@[x][1] - by, @[x][2]>>]]]
      first == curves[1].p[1][1]
      last == curves[1].p[Len(curves[1].p)]
      shift == IF per /\ ref = 0 THEN first ELSE ref
      names == Names(curves) IN
  IF \E k \in 1..Len(curves) : ~Rising(curves[k].p) THEN No("ValueError")
  ELSE IF per /\ \/ curves = <<>> \/ Len(curves[1].p) < 2
                 \/ \E k \in 1..Len(curves) : LET p == curves[k].p IN
                      [x \in 1..Len(p) |-> p[x][1]] # [x \in 1..Len(curves[1].p) |-> curves[1].p[x][1]] \/ p[1][2] # p[Len(p)][2]
                 \/ shift # first
       THEN No("ValueError")
  ELSE IF base # <<>> /\ \E f \in names : \A k \in 1..Len(base[1]) : base[1][k][1] # f THEN No("ValueError")
  ELSE [made |-> "ok", curves |-> moved(shift), ref |-> shift, per |-> IF per THEN last[1] - first ELSE 0,
        base |-> IF base = <<>> THEN [k \in 1..Len(curves) |-> <<curves[k].f, 0>>] ELSE base[1]]
FromCurves(d) ==
  Template([k \in 1..Len(d.curves) |-> [f |-> d.curves[k].f, p |-> [x \in 1..Len(d.curves[k].p) |-> <<d.curves[k].p[x][1], Flux(d.mag, d.curves[k].p[x][2])>>]]],
           d.ref, d.per, IF d.base = <<>> THEN <<>> ELSE <<[k \in 1..Len(d.base[1]) |-> <<d.base[1][k][1], Flux(d.mag, d.base[1][k][2])>>]>>)
(* A table in the LCLIB format: magnitudes, rows of the source (S) and of the background (T), class of recurrence *)
FromTable(d) ==
  LET cols == IF d.pick = <<>> THEN d.col ELSE SelectSeq(d.col, LAMBDA c : c.f \in Set(d.pick[1]))
      src == SelectSeq([k \in 1..Len(d.time) |-> k], LAMBDA k : d.type = <<>> \/ d.type[k] = "S")
      back == SelectSeq([k \in 1..Len(d.time) |-> k], LAMBDA k : d.type # <<>> /\ d.type[k] # "S")
      per == d.recur \in {"PERIODIC", "RECUR-PERIODIC"}
      ref == IF d.ref # <<>> THEN d.ref[1] ELSE Min({d.time[k] : k \in Set(src)})
      pts(c) == [x \in 1..Len(src) |-> <<d.time[src[x]], Pow10(c.v[src[x]])>>]
      open == \E k \in 1..Len(cols) : pts(cols[k])[1][2] # pts(cols[k])[Len(src)][2]
      \* a periodic curve that does not end where it starts is closed one average step later
      end == LET a == d.time[src[1]]
                 b == d.time[src[Len(src)]] IN b + (b - a) \div (Len(src) - 1)
      full(c) == IF per /\ open THEN Append(pts(c), <<end, pts(c)[1][2]>>) ELSE pts(c)
      base == IF per THEN <<>> ELSE <<[k \in 1..Len(cols) |-> <<cols[k].f, IF back = <<>> THEN 0 ELSE Pow10(cols[k].v[back[1]])>>]>> IN
  IF cols = <<>> \/ d.recur \notin {"", "PERIODIC", "RECUR-PERIODIC", "RECUR-NONPERIODIC", "NON-RECUR"} THEN No("ValueError")
  ELSE Template([k \in 1..Len(cols) |-> [f |-> cols[k].f, p |-> full(cols[k])]], ref, per, base)
Made(d) == IF d.form = "table" THEN FromTable(d) ELSE FromCurves(d)

\* The boxes that make up the flux density
Band(s, f) == s.c.bands[CHOOSE k \in 1..Len(s.c.bands) : s.c.bands[k].f = f].p
Waves(s) == UNION {{b.p[k][1] : k \in 1..Len(b.p)} : b \in Set(s.c.bands)}
Uses(s, f) == LET p == Band(s, f) IN {p[k][1] : k \in {x \in 1..Len(p) : p[x][2] > 0}}
AllNames(s) == UNION {Names(s.lcs[j].curves) : j \in 1..Len(s.lcs)}
Own(s, f) == {w \in Uses(s, f) : \A g \in AllNames(s) \ {f} : w \notin Uses(s, g)}
(* Half of the distance of the neighbours: the weights of the trapezoidal rule, doubled *)
Width(p, k) == (IF k = Len(p) THEN p[k][1] ELSE p[k + 1][1]) - (IF k = 1 THEN p[1][1] ELSE p[k - 1][1])
Weight(p, In(_)) == SumF(LAMBDA k : IF In(p[k][1]) THEN Fr(p[k][2] * Width(p, k), 1) ELSE <<0, 1>>, Len(p))
Height(s, f) == LET p == Band(s, f)
                    a == Weight(p, LAMBDA w : TRUE)
                    b == Weight(p, LAMBDA w : w \in Own(s, f)) IN Mul(a, <<b[2], b[1]>>)
Box(s, f, w) == IF w \in Own(s, f) THEN Height(s, f) ELSE <<0, 1>>

InitState(c) ==
  LET lcs == [j \in 1..Len(c.lcs) |-> Made(c.lcs[j])]
      s == [made |-> "ok", c |-> c, lcs |-> lcs] IN
  IF \E j \in 1..Len(lcs) : lcs[j].made # "ok" THEN [s EXCEPT !.made = "ValueError"]
  ELSE IF \E f \in AllNames(s) : f \notin {b.f : b \in Set(c.bands)} THEN [s EXCEPT !.made = "ValueError"]
  ELSE IF c.t0 = <<>> \/ \E f \in AllNames(s) : Own(s, f) = {} THEN [s EXCEPT !.made = "ValueError"]
  ELSE s

\* ---------------------------------------------------------------- evaluation
(* The flux of a template in filter f at time t relative to its reference time *)
At(lc, f, t) ==
  LET x == IF lc.per > 0 THEN t % lc.per ELSE t
      p == lc.curves[Curve(lc.curves, f)].p IN
  IF x < p[1][1] \/ x > p[Len(p)][1] THEN <<Lookup(lc.base, f), 1>>
  ELSE IF x = p[Len(p)][1] THEN <<p[Len(p)][2], 1>>
  ELSE LET k == CHOOSE k \in 1..(Len(p) - 1) : p[k][1] <= x /\ x < p[k + 1][1] IN
       Fr(p[k][2] * (p[k + 1][1] - x) + p[k + 1][2] * (x - p[k][1]), p[k + 1][1] - p[k][1])
Chosen(s, op, i) == s.lcs[op.sel[i] + 1]
Res(s, out) == [s |-> s, out |-> out]
(* sel: per sample the template the model chose (from 0) *)
MayChoose(s, op) == \A i \in 1..s.c.n : op.sel[i] + 1 \in 1..Len(s.lcs) /\ (s.c.w = <<>> \/ s.c.w[op.sel[i] + 1] > 0)
BandAct(s, op) ==
  IF \E i \in 1..s.c.n : \E f \in Set(op.filters) : f \notin Names(Chosen(s, op, i).curves) THEN Res(s, [r |-> "ValueError"])
  ELSE Res(s, [r |-> "band", ok |-> MayChoose(s, op),
               flux |-> [i \in 1..s.c.n |-> [k \in 1..Len(op.times) |-> At(Chosen(s, op, i), op.filters[k], op.times[k] - s.c.t0[i])]]])
BoxAt(s, f, w) ==
  LET W == Waves(s) IN
  IF w \in W THEN Box(s, f, w)
  ELSE IF w < Min(W) \/ w > Max(W) THEN <<0, 1>>
  ELSE LET a == Max({x \in W : x < w})
           b == Min({x \in W : x > w}) IN
       Add(Mul(Box(s, f, a), Fr(b - w, b - a)), Mul(Box(s, f, b), Fr(w - a, b - a)))
SedAct(s, op) ==
  Res(s, [r |-> "sed", ok |-> MayChoose(s, op),
          flux |-> [i \in 1..s.c.n |-> [k \in 1..Len(op.times) |-> [x \in 1..Len(op.waves) |->
             LET lc == Chosen(s, op, i) IN
             SumF(LAMBDA c : Mul(At(lc, lc.curves[c].f, op.times[k] - s.c.t0[i]), BoxAt(s, lc.curves[c].f, op.waves[x])), Len(lc.curves))]]]])
(* The curves themselves *)
DataAct(s, op) ==
  IF op.f \notin Names(s.lcs[op.lc].curves) THEN Res(s, [r |-> "ValueError"])
  ELSE Res(s, [r |-> "data", flux |-> [k \in 1..Len(op.times) |-> At(s.lcs[op.lc], op.f, op.times[k])]])
(* The model's parameters for the chosen template: its number and its baselines, 0 in filters it has none for *)
StateAct(s, op) ==
  Res(s, [r |-> "state", ok |-> MayChoose(s, op),
          base |-> [i \in 1..s.c.n |-> LET lc == Chosen(s, op, i) IN
             [f \in AllNames(s) |-> IF \E k \in 1..Len(lc.base) : lc.base[k][1] = f THEN Lookup(lc.base, f) ELSE 0]]])
Step(s, op) ==
  CASE op.k = "band" -> BandAct(s, op)
    [] op.k = "sed" -> SedAct(s, op)
    [] op.k = "data" -> DataAct(s, op)
    [] op.k = "state" -> StateAct(s, op)
Obs(s) == [made |-> s.made,
           lcs |-> IF s.made # "ok" THEN <<>> ELSE [j \in 1..Len(s.lcs) |->
             [ref |-> s.lcs[j].ref, per |-> s.lcs[j].per, f |-> Names(s.lcs[j].curves),
              range |-> [f \in Names(s.lcs[j].curves) |-> LET p == s.lcs[j].curves[Curve(s.lcs[j].curves, f)].p IN <<p[1][1], p[Len(p)][1]>>]]]]

\* ---------------------------------------------------------------- properties of the specification
StateInv(s) ==
  s.made = "ok" =>
    /\ \A j \in 1..Len(s.lcs) : s.lcs[j].per > 0 =>
         \A k \in 1..Len(s.lcs[j].curves) : LET p == s.lcs[j].curves[k].p IN p[1][1] = 0 /\ p[Len(p)][1] = s.lcs[j].per
    \* every box has the band flux 1 in its own band and 0 in the others
    /\ \A f, g \in AllNames(s) :
         LET p == Band(s, g)
             a == SumF(LAMBDA k : Mul(Box(s, f, p[k][1]), Fr(p[k][2] * Width(p, k), 1)), Len(p))
             b == Weight(p, LAMBDA w : TRUE) IN
         IF f = g THEN a = b ELSE a = <<0, 1>>
StepInv(s, op, out, s2) ==
  /\ s2 = s
  /\ (s.made = "ok" /\ out.r = "band") =>
       \A i \in 1..s.c.n : \A k \in 1..Len(op.times) :
         LET lc == Chosen(s, op, i)
             p == lc.curves[Curve(lc.curves, op.filters[k])].p
             vals == {Abs(p[x][2]) : x \in 1..Len(p)} \cup {Abs(Lookup(lc.base, op.filters[k]))}
             v == out.flux[i][k] IN
         \* interpolation stays within the given values; the given points are met; a period later nothing has changed
         /\ Abs(v[1]) <= Max(vals) * v[2]
         /\ (\E x \in 1..Len(p) : p[x][1] = op.times[k] - s.c.t0[i] /\ v # <<p[x][2], 1>>) => FALSE
         /\ lc.per > 0 => v = At(lc, op.filters[k], op.times[k] - s.c.t0[i] + 3 * lc.per)

\* ---------------------------------------------------------------- finite instance
C(f, p) == [f |-> f, p |-> p]
Given(curves, ref, per, mag, base) == [form |-> "curves", curves |-> curves, ref |-> ref, per |-> per, mag |-> mag, base |-> base]
Two == <<C("g", <<<<2, 1>>, <<4, 3>>>>), C("r", <<<<0, 2>>, <<6, 0>>, <<8, 2>>>>)>>
Loop == <<C("g", <<<<3, 1>>, <<5, 3>>, <<7, 1>>>>), C("r", <<<<3, 0>>, <<5, 2>>, <<7, 0>>>>)>>
Table(recur, pick, ref) == [form |-> "table", time |-> <<0, 2, 4, 6>>, type |-> <<"T", "S", "S", "S">>,
   col |-> <<[f |-> "g", v |-> <<1, 0, 2, 1>>], [f |-> "r", v |-> <<0, 1, 2, 1>>]>>, recur |-> recur, pick |-> pick, ref |-> ref]
Bands == <<C("g", <<<<10, 1>>, <<12, 2>>, <<14, 1>>>>), C("r", <<<<14, 1>>, <<16, 2>>, <<20, 3>>, <<22, 0>>>>), C("y", <<<<8, 1>>, <<10, 1>>>>)>>
Base == <<<<<<"g", 1>>, <<"r", 2>>>>>>
One(d, bands) == [n |-> 2, t0 |-> <<0, 5>>, multi |-> FALSE, w |-> <<>>, lcs |-> <<d>>, bands |-> bands]
MCConfigs ==
  {One(Given(cs, ref, per, mag, base), Bands) : cs \in {Two, Loop}, ref \in {0, 3}, per \in BOOLEAN, mag \in BOOLEAN, base \in {<<>>, Base}}
  \cup {One(Table(rec, pick, ref), Bands) : rec \in {"", "PERIODIC", "NON-RECUR", "ODD"}, pick \in {<<>>, <<<<"g", "y">>>>, <<<<"y">>>>}, ref \in {<<>>, <<4>>}}
  \cup {One(Given(Two, 0, FALSE, FALSE, <<<<<<"g", 1>>>>>>), Bands),
        One(Given(<<C("g", <<<<2, 1>>, <<2, 3>>>>)>>, 0, FALSE, FALSE, <<>>), Bands),
        One(Given(<<C("z", <<<<2, 1>>, <<3, 3>>>>)>>, 0, FALSE, FALSE, <<>>), Bands),
        One(Given(<<C("g", <<<<0, 1>>, <<3, 1>>>>), C("r", <<<<0, 1>>, <<2, 1>>>>)>>, 0, TRUE, FALSE, <<>>), Bands),
        One(Given(<<C("g", <<<<1, 1>>, <<3, 1>>>>), C("y", <<<<0, 1>>, <<2, 1>>>>)>>, 1, FALSE, FALSE, <<>>), <<Bands[1], C("y", <<<<10, 1>>, <<12, 1>>>>)>>),
        [One(Given(Two, 0, FALSE, FALSE, <<>>), Bands) EXCEPT !.t0 = <<>>]}
  \cup {[n |-> 2, t0 |-> <<0, 5>>, multi |-> TRUE, w |-> w, bands |-> Bands,
         lcs |-> <<Given(Two, 0, FALSE, FALSE, Base), Given(<<Loop[1]>>, 3, TRUE, TRUE, <<>>), Table("PERIODIC", <<>>, <<>>)>>] : w \in {<<>>, <<0, 1, 2>>}}
Sels(s) == IF ~s.c.multi THEN {<<0, 0>>} ELSE {<<1, 2>>, <<2, 1>>, <<1, 1>>} \cup IF s.c.w = <<>> THEN {<<0, 1>>} ELSE {}
MCOps(s) ==
  IF s.made # "ok" THEN {}
  ELSE {[k |-> "band", times |-> ts, filters |-> fs, sel |-> sel] : ts \in {<<5, 0, 2, 9, 7, 4>>}, fs \in {<<"g", "r", "g", "r", "r", "g">>, <<"g", "g", "g", "g", "g", "g">>}, sel \in Sels(s)}
       \cup {[k |-> "band", times |-> <<3>>, filters |-> <<"y">>, sel |-> sel] : sel \in {CHOOSE x \in Sels(s) : TRUE}}
       \cup {[k |-> "sed", times |-> <<6, 1, 12>>, waves |-> <<16, 10, 11, 14, 13, 20, 21, 8, 2, 30>>, sel |-> sel] : sel \in Sels(s)}
       \cup {[k |-> "state", sel |-> sel] : sel \in Sels(s)}
       \cup {[k |-> "data", lc |-> j, f |-> f, times |-> <<-3, 0, 1, 3, 8>>] : j \in 1..Len(s.lcs), f \in {"g", "r", "y"}}
====
