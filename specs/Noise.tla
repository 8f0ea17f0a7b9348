---- MODULE Noise ----
(***************************************************************************
 Zero points and flux errors of the observation tables (FakeObsTable, OpSim,
 ZTFObsTable, RomanObsTable), exactly: values are symbolic.

 A fraction is <<numerator, denominator>>.  A term
   [c |-> fraction, m |-> fraction, g |-> k, f |-> k, v |-> fraction]
 stands for  c * 10^(-0.4 m) * G^g * D(v)^f,  where G = pi / (2 ln 2) relates the squared FWHM of a
 Gaussian PSF to its effective area and D(v) is the number of electrons N of a 5 sigma source over a
 background of v electrons^2: the positive root of N^2 = 25 (N + v).
 A squared flux error is a sequence of terms (their sum).

 cfg: kind "fake" | "opsim" | "ztf" | "roman", n rows
      (a FWHM of ZTF may be Missing)
      filter Seq(filter number), time Seq(integer), pos Seq(0 | 1) (two places far from each other)
      col    column -> Seq(fraction) per row
      sv     survey value -> [t |-> "num", v |-> << <<0, fraction>> >>] or [t |-> "map", v |-> Seq(<<filter, fraction>>)]
      ch     Roman: characterization table -> Seq(<<filter (or MA table), fraction>>)
 State: cfg with the columns that construction derives (and made, the outcome of construction).
 ***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Fr(n, d) == IF n = 0 THEN <<0, 1>> ELSE LET g == Gcd(Abs(n), Abs(d)) IN
            IF d > 0 THEN <<n \div g, d \div g>> ELSE <<(-n) \div g, (-d) \div g>>
Q(n) == <<n, 1>>
Mul(a, b) == LET x == Fr(a[1], b[2])
                 y == Fr(b[1], a[2]) IN Fr(x[1] * y[1], x[2] * y[2])
Inv1(a) == Fr(a[2], a[1])
Add(a, b) == LET g == Gcd(a[2], b[2]) IN Fr(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
Sub(a, b) == Add(a, <<-b[1], b[2]>>)
Less(a, b) == a[1] * b[2] < b[1] * a[2]
Pos(a) == a[1] > 0
Sq(a) == Mul(a, a)
Set(q) == {q[k] : k \in 1..Len(q)}

ABZero == <<157, 5>>                       \* 31.4: the AB magnitude of 1 nJy
Term(c) == [c |-> c, m |-> Q(0), g |-> 0, f |-> 0, v |-> Q(0)]
TMul(a, b) == [c |-> Mul(a.c, b.c), m |-> Add(a.m, b.m), g |-> a.g + b.g, f |-> a.f + b.f,
               v |-> IF a.f # 0 THEN a.v ELSE b.v]
Flux(mag) == [Term(Q(1)) EXCEPT !.m = Sub(mag, ABZero)]       \* nJy of an AB magnitude
Gauss(c) == [Term(c) EXCEPT !.g = 1]

Has(r, k) == k \in DOMAIN r
Filters(s) == Set(s.filter)
Keys(map) == {map[k][1] : k \in 1..Len(map)}
At(map, f) == map[CHOOSE k \in 1..Len(map) : map[k][1] = f][2]
\* a survey value that may be given per filter
PerFilter(x, f) == IF x.t = "num" THEN x.v[1][2] ELSE At(x.v, f)
Covers(s, x) == x.t = "num" \/ Filters(s) \subseteq Keys(x.v)
Num(s, k, default) == IF Has(s.sv, k) THEN s.sv[k].v[1][2] ELSE default

\* ---------------------------------------------------------------- what construction derives
(* A column of the table wins over a survey value *)
Assigned(s, k, positive) ==
  IF Has(s.col, k) THEN [ok |-> TRUE, col |-> s.col[k]]
  ELSE IF /\ Has(s.sv, k)
          /\ Covers(s, s.sv[k])
          /\ positive => \A f \in Filters(s) : Pos(PerFilter(s.sv[k], f))
       THEN [ok |-> TRUE, col |-> [i \in 1..s.n |-> PerFilter(s.sv[k], s.filter[i])]]
       ELSE [ok |-> FALSE, col |-> <<>>]
(* The footprint of the PSF: a footprint wins over a FWHM, the table over survey values *)
Footprint(s) ==
  IF Has(s.col, "psf_footprint") \/ Has(s.sv, "psf_footprint")
  THEN LET a == Assigned(s, "psf_footprint", TRUE) IN
       [ok |-> a.ok, col |-> IF a.ok THEN [i \in 1..s.n |-> Term(a.col[i])] ELSE <<>>]
  ELSE LET a == Assigned(s, "fwhm_px", TRUE) IN
       [ok |-> a.ok, col |-> IF a.ok THEN [i \in 1..s.n |-> Gauss(Sq(a.col[i]))] ELSE <<>>]

FakeZP(s) ==
  IF Has(s.col, "zp") THEN [ok |-> TRUE, col |-> [i \in 1..s.n |-> Term(s.col.zp[i])]]
  ELSE IF /\ Has(s.sv, "zp_per_band")
          /\ Filters(s) \subseteq Keys(s.sv.zp_per_band.v)
          /\ \A k \in 1..Len(s.sv.zp_per_band.v) : Pos(s.sv.zp_per_band.v[k][2])
       THEN [ok |-> TRUE, col |-> [i \in 1..s.n |-> Term(At(s.sv.zp_per_band.v, s.filter[i]))]]
       ELSE [ok |-> FALSE, col |-> <<>>]
NonNeg(x) == \A k \in 1..Len(x.v) : x.v[k][2][1] >= 0
(* The magnitude of a source of one electron: zenith value, extinction by airmass, exposure time *)
OpSimZP(s) ==
  IF Has(s.col, "zp") THEN [ok |-> TRUE, col |-> [i \in 1..s.n |-> Term(s.col.zp[i])]]
  ELSE IF Has(s.col, "airmass") /\ Has(s.col, "exptime")
       THEN [ok |-> TRUE, col |-> [i \in 1..s.n |->
               TMul(Term(Inv1(s.col.exptime[i])),
                    Flux(Add(At(s.sv.zp_per_sec.v, s.filter[i]),
                             Mul(At(s.sv.ext_coeff.v, s.filter[i]), Sub(s.col.airmass[i], Q(1))))))]]
       ELSE [ok |-> FALSE, col |-> <<>>]
(* The zero point follows from the limiting magnitude: the 5 sigma source of the row's own background *)
Background(s, i) == Mul(Sq(s.col.fwhm[i]),
   Add(Mul(s.col.sky[i], Num(s, "gain", <<31, 5>>)),
       Add(Sq(Num(s, "read_noise", Q(8))), Mul(Num(s, "dark_current", Q(0)), s.col.exptime[i]))))
ZTFZP(s) ==
  IF Has(s.col, "zp") THEN [ok |-> TRUE, col |-> [i \in 1..s.n |-> Term(s.col.zp[i])]]
  ELSE IF Has(s.col, "maglim") /\ Has(s.col, "sky") /\ Has(s.col, "fwhm") /\ Has(s.col, "exptime")
       THEN [ok |-> TRUE, col |-> [i \in 1..s.n |->
               TMul(Flux(s.col.maglim[i]), [Term(Q(1)) EXCEPT !.f = -1, !.v = Background(s, i)])]]
       ELSE [ok |-> FALSE, col |-> <<>>]
RomanZP(s) == [ok |-> TRUE, col |-> [i \in 1..s.n |-> Flux(At(s.ch.zp, s.filter[i]))]]

Empty(s) == [i \in 1..s.n |-> <<0, 1>>]
(* Derived columns of the state: zp (terms), fp (terms), and the conditions used by the noise *)
Build(c) ==
  LET zp == CASE c.kind = "fake" -> FakeZP(c) [] c.kind = "opsim" -> OpSimZP(c)
              [] c.kind = "ztf" -> ZTFZP(c) [] c.kind = "roman" -> RomanZP(c)
      const == c.kind = "fake" /\ Has(c.sv, "const_flux_error")
      fp == Footprint(c)
      sky == Assigned(c, "sky", FALSE)
      t == Assigned(c, "exptime", TRUE)
      nx == Assigned(c, "nexposure", TRUE)
      ok == /\ zp.ok
            /\ const => (Covers(c, c.sv.const_flux_error) /\ NonNeg(c.sv.const_flux_error))
            /\ (c.kind = "fake" /\ ~const) => (fp.ok /\ sky.ok /\ t.ok /\ nx.ok)
      roman == [exptime |-> [i \in 1..c.n |-> At(c.ch.ma, c.ma[i])],
                npix |-> [i \in 1..c.n |-> At(c.ch.psf, c.filter[i])],
                zodi |-> [i \in 1..c.n |-> At(c.ch.zodi, c.filter[i])],
                thermal |-> [i \in 1..c.n |-> At(c.ch.thermal, c.filter[i])]]
      fake == [exptime |-> t.col, nexposure |-> nx.col, sky |-> sky.col]
  IN [kind |-> c.kind, n |-> c.n, filter |-> c.filter, time |-> c.time, pos |-> c.pos, sv |-> c.sv,
      const |-> const, made |-> IF ok THEN "ok" ELSE "ValueError",
      zp |-> IF ok THEN zp.col ELSE <<>>,
      fp |-> IF ok /\ c.kind = "fake" /\ ~const THEN fp.col ELSE <<>>,
      col |-> IF ~ok THEN [x \in {} |-> <<>>]
              ELSE IF c.kind = "roman" THEN roman
              ELSE IF c.kind = "fake" /\ ~const THEN fake
              ELSE c.col]
Missing == <<0, 0>>
Pick(q, rows) == [k \in 1..Len(rows) |-> q[rows[k]]]
(* Rows of a ZTF table without a FWHM are dropped where the zero point has to be derived *)
InitState(c) ==
  IF c.kind = "ztf" /\ ~Has(c.col, "zp") /\ Has(c.col, "fwhm")
  THEN LET rows == SelectSeq([i \in 1..c.n |-> i], LAMBDA i : c.col.fwhm[i] # Missing) IN
       Build([c EXCEPT !.n = Len(rows), !.filter = Pick(@, rows), !.time = Pick(@, rows), !.pos = Pick(@, rows),
                       !.col = [x \in DOMAIN @ |-> Pick(@[x], rows)]])
  ELSE Build(c)

\* ---------------------------------------------------------------- the noise model
(* Variance: source photons, and per pixel of the footprint: sky, readouts, dark current *)
Poisson(flux, zp, fp, sky, readout, dark) ==
  LET zz == TMul(zp, zp) IN
  << TMul(Term(flux), zp), TMul(zz, TMul(fp, sky)), TMul(zz, readout), TMul(zz, TMul(fp, Term(dark))) >>
Err2(s, i, flux) ==
  LET rn == Num(s, "read_noise", CASE s.kind = "fake" -> Q(0) [] s.kind = "opsim" -> <<44, 5>> [] OTHER -> Q(8))
      dk == Num(s, "dark_current", IF s.kind = "opsim" THEN <<1, 5>> ELSE Q(0))
      dark == Mul(dk, s.col.exptime[i])
      zp == s.zp[i] IN
  CASE s.kind = "fake" ->
         IF s.const THEN << Term(Sq(PerFilter(s.sv.const_flux_error, s.filter[i]))) >>
         ELSE Poisson(flux, zp, s.fp[i], Term(s.col.sky[i]),
                      TMul(s.fp[i], Term(Mul(Sq(rn), s.col.nexposure[i]))), dark)
    [] s.kind = "opsim" ->
         LET ps == Num(s, "pixel_scale", <<1, 5>>)
             fp == Gauss(Sq(Mul(s.col.seeing[i], Inv1(ps))))
             zz == TMul(zp, zp) IN
         << TMul(Term(flux), zp),
            TMul(TMul(Flux(s.col.skybrightness[i]), Term(Sq(ps))), TMul(fp, zp)),
            TMul(zz, TMul(fp, Term(Mul(Sq(rn), s.col.nexposure[i])))),
            TMul(zz, TMul(fp, Term(dark))) >>
    [] s.kind = "ztf" ->
         LET fp == Gauss(Sq(s.col.fwhm[i])) IN
         Poisson(flux, zp, fp, Term(Mul(s.col.sky[i], Num(s, "gain", <<31, 5>>))), TMul(fp, Term(Sq(rn))), dark)
    [] s.kind = "roman" ->
         LET t == s.col.exptime[i]
             reads == Mul(t, <<25, 76>>)               \* exposure time in frames of 3.04 s
             rd == Add(Q(25), Mul(Mul(Q(3072), Sub(reads, Q(1))), Mul(Inv1(reads), Inv1(Add(reads, Q(1))))))
             sky == Mul(t, Add(Mul(Num(s, "zodi_level", <<3, 2>>), s.col.zodi[i]), s.col.thermal[i])) IN
         Poisson(flux, TMul(zp, Term(Inv1(t))), Term(s.col.npix[i]), Term(sky), Term(rd), dark)

\* ---------------------------------------------------------------- operations
N(v) == [t |-> "num", v |-> << <<0, v>> >>]
Keep(s, rows) ==
  [s EXCEPT !.n = Len(rows), !.filter = Pick(@, rows), !.time = Pick(@, rows), !.pos = Pick(@, rows),
            !.zp = Pick(@, rows), !.fp = IF s.fp = <<>> THEN <<>> ELSE Pick(@, rows),
            !.col = [c \in DOMAIN @ |-> Pick(@[c], rows)]]
Rows(s, P(_)) == {i \in 1..s.n : P(i)}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o Sorted(S \ {x})
CeilDiv(a, b) == (a + b - 1) \div b
(* A table for one position with a row every op.dt quarter days, cycling through the bands; each row has the
   conditions of one observation in that band: the darkest one (or, if random, the op.pick-ed one) *)
Over(s, op) ==
  LET seen == Rows(s, LAMBDA i : s.pos[i] = op.at)
      times == {s.time[i] : i \in seen}
      lo == IF op.lo = <<>> THEN CHOOSE x \in times : \A y \in times : x <= y ELSE op.lo[1]
      hi == IF op.hi = <<>> THEN CHOOSE x \in times : \A y \in times : x >= y ELSE op.hi[1]
      all == {s.filter[i] : i \in seen}
      bands == IF op.bands = <<>> THEN Sorted(all) ELSE op.bands
      n == CeilDiv(4 * (hi - lo), op.dt)
      band(k) == bands[((k - 1) % Len(bands)) + 1]
      cand(b) == {i \in seen : s.filter[i] = b}
      best(b) == CHOOSE i \in cand(b) : \A j \in cand(b) : ~Less(s.col.skybrightness[i], s.col.skybrightness[j])
      src == [k \in 1..n |-> IF op.random THEN op.pick[k] ELSE best(band(k))]
  IN IF seen = {} \/ lo >= hi \/ ~(Set(bands) \subseteq all) \/ n < Len(bands)
     THEN [s |-> s, out |-> [r |-> "ValueError"]]
     ELSE IF op.random /\ (Len(op.pick) # n \/ \E k \in 1..n : op.pick[k] \notin cand(band(k)))
     THEN [s |-> s, out |-> [r |-> "rows with conditions of the same band in the search radius", n |-> n,
                             bands |-> [k \in 1..n |-> band(k)]]]
     ELSE [s |-> [Keep(s, src) EXCEPT !.time = [k \in 1..n |-> lo]],  \* times are reported, not kept
           out |-> [r |-> "table", n |-> n, t4 |-> [k \in 1..n |-> 4 * lo + (k - 1) * op.dt],
                    filter |-> [k \in 1..n |-> band(k)]]]

\* operations are generated along with the real table, which has other rows if it went wrong before
Fits(s, op) == CASE op.k = "err" -> \A k \in 1..Len(op.idx) : op.idx[k] <= s.n
                 [] op.k = "keep" -> \A k \in 1..Len(op.rows) : op.rows[k] <= s.n
                 [] op.k = "set" -> Len(op.vals) = s.n
                 [] OTHER -> TRUE
Step(s, op) ==
  CASE ~Fits(s, op) -> [s |-> s, out |-> [r |-> "no such row"]]
    [] op.k = "err" -> [s |-> s, out |-> [r |-> "err", e |-> [k \in 1..Len(op.idx) |-> Err2(s, op.idx[k], op.flux[k])]]]
    [] op.k = "zp" -> [s |-> s, out |-> [r |-> "zp", e |-> [i \in 1..s.n |-> <<s.zp[i]>>]]]
    [] op.k = "keep" -> [s |-> Keep(s, Sorted(Set(op.rows))), out |-> [r |-> "ok"]]
    [] op.k = "set" -> [s |-> [s EXCEPT !.col = [@ EXCEPT ![op.name] = op.vals]], out |-> [r |-> "ok"]]
    [] op.k = "value" -> [s |-> [s EXCEPT !.sv = [x \in DOMAIN @ \cup {op.name} |->
                              IF x = op.name THEN N(op.v) ELSE @[x]]], out |-> [r |-> "ok"]]
    [] op.k = "over" -> Over(s, op)
    [] op.k = "mag" -> [s |-> s, out |-> [r |-> "mag", e |-> [k \in 1..Len(op.mags) |-> <<Flux(op.mags[k])>>]]]

Obs(s) == [made |-> s.made, n |-> IF s.made = "ok" THEN s.n ELSE 0]

\* ---------------------------------------------------------------- invariants
Positive(t) == t.c[1] >= 0
StateInv(s) ==
  s.made = "ok" =>
    /\ Len(s.zp) = s.n /\ Len(s.filter) = s.n
    /\ \A i \in 1..s.n : s.zp[i].c[1] > 0
    /\ \A i \in 1..s.n : \A k \in 1..Len(Err2(s, i, Q(1))) : Positive(Err2(s, i, Q(1))[k])
    \* the flux only enters the photon noise of the source, which grows with it
    /\ ~s.const => \A i \in 1..s.n :
         LET a == Err2(s, i, Q(1))
             b == Err2(s, i, Q(2)) IN
         /\ a[1].c[1] > 0 /\ Less(a[1].c, b[1].c)
         /\ \A k \in 2..Len(a) : a[k] = b[k]
StepInv(s, op, out, s2) ==
  /\ (op.k = "err" /\ out.r = "err") =>
       /\ s2 = s
       \* rows are independent: the noise of a row does not depend on the other rows asked for or present
       /\ \A k \in 1..Len(op.idx) :
            out.e[k] = Err2(Keep(s, <<op.idx[k]>>), 1, op.flux[k])
  /\ op.k = "keep" => s2.n <= s.n
  /\ (op.k = "over" /\ out.r = "table") =>
       \A k \in 1..out.n : \E i \in 1..s.n : s.filter[i] = out.filter[k] /\ s.zp[i] = s2.zp[k]

\* ---------------------------------------------------------------- exhaustive exploration
CONSTANT MCKinds
M(v) == [t |-> "map", v |-> v]
H == <<1, 2>>
MCFake ==
  LET cols == {[x \in {} |-> <<>>], [zp |-> <<Q(2), H, Q(1)>>],
               [sky |-> <<Q(1), Q(7), Q(0)>>, exptime |-> <<Q(1), Q(2), Q(4)>>],
               [psf_footprint |-> <<Q(1), Q(2), Q(3)>>, nexposure |-> <<Q(1), Q(2), Q(5)>>],
               [fwhm_px |-> <<Q(1), Q(2), Q(3)>>]}
      base == [read_noise |-> N(Q(2)), dark_current |-> N(H), zp_per_band |-> M(<< <<1, Q(1)>>, <<2, Q(3)>> >>)]
      dflt == [exptime |-> N(Q(30)), nexposure |-> N(Q(1))]
      sky == {[x \in {} |-> <<>>], [sky |-> N(Q(5))], [sky |-> M(<< <<1, Q(5)>>, <<2, Q(9)>> >>)], [sky |-> M(<< <<1, Q(5)>> >>)]}
      psf == {[x \in {} |-> <<>>], [fwhm_px |-> M(<< <<1, Q(2)>>, <<2, Q(3)>> >>)], [fwhm_px |-> N(Q(2)), psf_footprint |-> N(Q(4))],
              [psf_footprint |-> N(Q(-1))]}
      cst == {[x \in {} |-> <<>>], [const_flux_error |-> M(<< <<1, H>>, <<2, Q(0)>>, <<3, Q(4)>> >>)], [const_flux_error |-> N(Q(-1))]}
      join(a, b) == [x \in DOMAIN a \cup DOMAIN b |-> IF x \in DOMAIN b THEN b[x] ELSE a[x]]
  IN {[kind |-> "fake", n |-> 3, filter |-> <<1, 2, 1>>, time |-> <<0, 1, 2>>, pos |-> <<0, 0, 1>>, col |-> c,
       sv |-> join(join(join(join(base, dflt), a), b), d)] : c \in cols, a \in sky, b \in psf, d \in cst}
Mag(k) == <<k, 10>>
MCOpSim ==
  {[kind |-> "opsim", n |-> 3, filter |-> f, time |-> <<0, 3, 1>>, pos |-> p,
    col |-> [airmass |-> <<Q(1), <<3, 2>>, Q(2)>>, exptime |-> <<Q(15), Q(30), Q(1)>>, seeing |-> <<H, Q(1), <<4, 5>> >>,
             skybrightness |-> <<Mag(215), Mag(220), Mag(210)>>, nexposure |-> <<Q(2), Q(1), Q(3)>>],
    sv |-> [zp_per_sec |-> M(<< <<1, Q(27)>>, <<2, Mag(285)>> >>), ext_coeff |-> M(<< <<1, Mag(-5)>>, <<2, Q(0)>> >>)]] :
      f \in {<<1, 2, 1>>, <<2, 2, 2>>, <<1, 1, 2>>}, p \in {<<0, 0, 0>>, <<0, 0, 1>>, <<1, 0, 1>>}}
MCZTF ==
  {[kind |-> "ztf", n |-> 3, filter |-> <<1, 2, 1>>, time |-> <<0, 1, 2>>, pos |-> <<0, 0, 1>>,
    col |-> [maglim |-> <<Mag(205), Mag(195), Q(20)>>, sky |-> <<Q(100), Q(7), Q(150)>>, fwhm |-> <<Q(2), <<3, 2>>, Q(1)>>,
             exptime |-> <<Q(30), Q(40), Q(1)>>],
    sv |-> v] : v \in {[x \in {} |-> <<>>], [gain |-> N(Q(3))], [read_noise |-> N(Q(5)), dark_current |-> N(H)]}}
MCRoman ==
  {[kind |-> "roman", n |-> 3, filter |-> f, ma |-> m, time |-> <<0, 0, 0>>, pos |-> <<0, 0, 1>>, col |-> [x \in {} |-> <<>>],
    ch |-> [zp |-> << <<1, Mag(265)>>, <<2, Mag(264)>> >>, psf |-> << <<1, Q(7)>>, <<2, Q(9)>> >>,
            zodi |-> << <<1, H>>, <<2, <<1, 4>> >> >>, thermal |-> << <<1, <<1, 100>> >>, <<2, <<1, 20>> >> >>,
            ma |-> << <<3, Q(76)>>, <<4, Q(152)>> >>],
    sv |-> v] : f \in {<<1, 2, 1>>, <<2, 1, 1>>}, m \in {<<3, 4, 4>>, <<4, 4, 3>>}, v \in {[x \in {} |-> <<>>], [zodi_level |-> N(Q(2))]}}
MCConfigs == (IF "fake" \in MCKinds THEN MCFake ELSE {}) \cup (IF "opsim" \in MCKinds THEN MCOpSim ELSE {})
             \cup (IF "ztf" \in MCKinds THEN MCZTF ELSE {}) \cup (IF "roman" \in MCKinds THEN MCRoman ELSE {})
MCOps(s) ==
  IF s.made # "ok" THEN {[k |-> "mag", mags |-> <<Q(20), Q(21)>>]}
  ELSE LET all == [i \in 1..s.n |-> i]
           back == [i \in 1..s.n |-> s.n + 1 - i] IN
    {[k |-> "err", idx |-> q, flux |-> [i \in 1..Len(q) |-> Q(10 * i)]] : q \in {all, back}}
    \cup {[k |-> "zp"]}
    \cup {[k |-> "keep", rows |-> r] : r \in {x \in {<<1, 3>>, <<2, 3>>} : s.n = 3}}
    \cup (IF s.kind = "opsim" /\ s.n = 3
          THEN {[k |-> "over", at |-> a, lo |-> <<>>, hi |-> h, dt |-> 2, bands |-> b, random |-> FALSE, pick |-> <<>>]
                  : a \in {0, 1}, h \in {<<>>, <<2>>}, b \in {<<>>, <<2, 1>>}} ELSE {})
====
