---- MODULE Population ----
(***************************************************************************
 A population of objects whose parameters follow from one another by the astrophysical relations of the
 package: luminosity distances, distance moduli, SALT amplitudes by the Tripp relation, separations on the
 sky, magnitudes and fluxes, the parameters of active galactic nuclei, densities per wavelength and per
 frequency, rates of supernovae.  Redshifts are chosen as 1 + z = (p/q)^2 in a universe of matter alone
 (d_L = 2 (1+z) (1 - 1/sqrt(1+z)) c/H0) or an empty cosmological constant (d_L = z (1+z) c/H0), where
 every value is a product of a fraction, a power of c/H0 and a power of ten, and so exact here.

 cfg: om  "matter" | "lambda";  h0  the Hubble constant;  givens  Seq([n, v]): columns that are given, one
      value per object:  z: <<p, q>>;  x1, c, alpha, beta, m, mu, mag: thousandths;  sep: kpc / 10;
      lgm, lge: 1e-5 dex (mass in solar masses, Eddington ratio)
 State: c, given (name -> values), nodes: Seq([kind, src]) the derived columns in the order of their addition
 Ops: "add"  kind, src       adds a derived column; src is the source column where there is a choice
      "set"  n, v            new values for a given column
      "sample"               values of all derived columns for every object
      "conv" dir, f, w, wu, lu, nu    f_lambda <-> f_nu of a matrix (stateless)
      "rates" lo, hi, bins, sr        numbers of supernovae per redshift bin (stateless; 1e-4, 1e-2 sr)
      "eff"  snr, mag                 detection efficiencies (stateless; thousandths)
 A value is [t, n, d, h, x]: v = n/d (c/H0)^h 10^(x/1e5), and the column holds
      v ("lin"),  5 log10 v - 5 ("mod"),  -2.5 log10 v ("mag")
 ***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MCKinds, MCLen

V(t, n, d, h, x) == [t |-> t, n |-> n, d |-> d, h |-> h, x |-> x]
Given(s, n) == s.given[CHOOSE i \in 1..Len(s.given) : s.given[i].n = n].v
Has(s, n) == \E i \in 1..Len(s.given) : s.given[i].n = n
InitState(c) == [c |-> c, given |-> c.givens, nodes |-> <<>>]
Obs(s) == [n |-> Len(s.nodes)]
Size(s) == Len(s.given[1].v)

\* ---------------------------------------------------------------- relations
\* luminosity distance in units of c/H0, as a fraction
LumN(om, z) == IF om = "matter" THEN 2 * z[1] * (z[1] - z[2]) ELSE (z[1] * z[1] - z[2] * z[2]) * z[1] * z[1]
LumD(om, z) == IF om = "matter" THEN z[2] * z[2] ELSE z[2] * z[2] * z[2] * z[2]
\* angular diameter distance: divided by (1 + z)^2
AngN(om, z) == IF om = "matter" THEN 2 * (z[1] - z[2]) * z[2] * z[2] ELSE (z[1] * z[1] - z[2] * z[2])
AngD(om, z) == IF om = "matter" THEN z[1] * z[1] * z[1] ELSE z[1] * z[1]
Distance(om, z) == V("lin", LumN(om, z), LumD(om, z), 1, 600000)          \* pc
Modulus(om, z) == [Distance(om, z) EXCEPT !.t = "mod"]
GivenModulus(mu) == V("mod", 1, 1, 0, 20 * mu + 100000)
\* x0 = 10^(-0.4 (mu - alpha x1 + beta c + M - 10.635))
Tripp(mu, x1, c, a, b, m) ==
  V("lin", mu.d * mu.d, mu.n * mu.n, -2 * mu.h, 200000 - 2 * mu.x + (4 * a * x1) \div 100 - (4 * b * c) \div 100 - 40 * m + 425400)
\* separation on the sky in radians: sep / d_A
Separation(om, z, sep) == V("lin", sep * AngD(om, z), AngN(om, z), -1, -400000)
Flux(mag) == V("lin", 1, 1, 0, 40 * (31400 - mag))                          \* nJy; AB magnitudes have zero point 31.4
Magnitude(f) == [f EXCEPT !.t = "mag", !.x = @ - 1256000]
\* active galactic nuclei (logs)
LgCrit(m) == m + 1814613                                                     \* 1.4e18 g/s per solar mass
LgBol(m, e) == m + e + 3810037                                               \* 1.26e38 erg/s per solar mass
LgSF(m, e) == -47600 + (118 * 11300000) \div 1000 - (295 * LgBol(m, e)) \div 1000 + (118 * (m - 900000)) \div 1000
LgTau(m, e) == 259700 + (35 * 11300000) \div 1000 - (875 * (LgBol(m, e) \div 10)) \div 1000 + (141 * (m - 900000)) \div 1000
Log(x) == V("lin", 1, 1, 0, x)

\* ---------------------------------------------------------------- derived columns
RECURSIVE Col(_, _, _)
Col(s, k, i) ==
  LET nd == s.nodes[k]
      G(n) == Given(s, n)[i]
      om == s.c.om IN
  CASE nd.kind = "distance" -> Distance(om, G("z"))
    [] nd.kind = "model" -> Distance(om, G("z"))           \* the distance of a model with a cosmology
    [] nd.kind = "distmod" -> Modulus(om, G("z"))
    [] nd.kind = "x0" -> Tripp(IF nd.src = 0 THEN GivenModulus(G("mu")) ELSE Col(s, nd.src, i),
                               G("x1"), G("c"), G("alpha"), G("beta"), G("m"))
    [] nd.kind = "sep" -> Separation(om, G("z"), G("sep"))
    [] nd.kind = "flux" -> IF nd.src = 0 THEN Flux(G("mag")) ELSE LET v == Col(s, nd.src, i) IN [v EXCEPT !.t = "lin", !.x = @ + 1256000]
    [] nd.kind = "mag" -> Magnitude(Col(s, nd.src, i))
    [] nd.kind = "crit" -> Log(LgCrit(G("lgm")))
    [] nd.kind = "rate" -> Log(LgCrit(G("lgm")) + G("lge"))
    [] nd.kind = "lum" -> Log(LgBol(G("lgm"), G("lge")))
    [] nd.kind = "magi" -> [Log(LgBol(G("lgm"), G("lge")) - 3600000) EXCEPT !.t = "mag"]
    [] nd.kind = "sf" -> Log(LgSF(G("lgm"), G("lge")))
    [] nd.kind = "tau" -> Log(LgTau(G("lgm"), G("lge")))

Needs(kind, src) ==
  CASE kind \in {"distance", "model", "distmod"} -> {"z"}
    [] kind = "x0" -> {"x1", "c", "alpha", "beta", "m"} \cup (IF src = 0 THEN {"mu"} ELSE {})
    [] kind = "sep" -> {"z", "sep"}
    [] kind = "flux" -> IF src = 0 THEN {"mag"} ELSE {}
    [] kind = "mag" -> {}
    [] kind = "crit" -> {"lgm"}
    [] OTHER -> {"lgm", "lge"}
\* the sources that make sense
Source(s, kind, src) ==
  CASE kind = "x0" -> src = 0 \/ s.nodes[src].kind = "distmod"
    [] kind = "flux" -> src = 0 \/ s.nodes[src].kind = "mag"
    [] kind = "mag" -> src > 0 /\ s.nodes[src].kind \in {"flux", "x0"}
    [] OTHER -> src = 0
CanAdd(s, kind, src) == src <= Len(s.nodes) /\ Source(s, kind, src) /\ \A n \in Needs(kind, src) : Has(s, n)

\* ---------------------------------------------------------------- f_lambda and f_nu
Metre == [A |-> -10, nm |-> -9, um |-> -6, cm |-> -2]                \* wavelength units in m
FLam == [cgsA |-> 7, cgsnm |-> 6, SI |-> 0, Wum |-> 6]               \* W / m^3
FNu == [nJy |-> -35, Jy |-> -26, cgs |-> -3, mJy |-> -29]            \* W / m^2 / Hz
Rows(a) == Len(a)
Cols(a) == Len(a[1])
Fits(x, y) == x = y \/ x = 1 \/ y = 1
Max(x, y) == IF x > y THEN x ELSE y
At(a, i, j) == a[IF Rows(a) = 1 THEN 1 ELSE i][IF Cols(a) = 1 THEN 1 ELSE j]
Convert(op) ==
  IF ~Fits(Rows(op.f), Rows(op.w)) \/ ~Fits(Cols(op.f), Cols(op.w)) THEN [r |-> "ValueError", m |-> <<>>]
  ELSE [r |-> "ok", m |-> [i \in 1..Max(Rows(op.f), Rows(op.w)) |-> [j \in 1..Max(Cols(op.f), Cols(op.w)) |->
         LET f == At(op.f, i, j)
             w == At(op.w, i, j)
             x == FLam[op.lu] + 2 * Metre[op.wu] - FNu[op.nu] IN
         IF op.dir = "fnu" THEN V("lin", f * w * w, 1, -1, 100000 * x) ELSE V("lin", f, w * w, 1, -100000 * x)]]]

\* ---------------------------------------------------------------- rates
\* sums of terms a/b (1+z)^(e/10)
T(a, b, e) == [a |-> a, b |-> b, e |-> e]
Times(p, q) == [k \in 1..(Len(p) * Len(q)) |-> LET x == p[1 + ((k - 1) \div Len(q))] y == q[1 + ((k - 1) % Len(q))] IN T(x.a * y.a, x.b * y.b, x.e + y.e)]
Integral(p) == [k \in 1..Len(p) |-> T(10 * p[k].a, p[k].b * (p[k].e + 10), p[k].e + 10)]
\* comoving volume per redshift and steradian in (c/H0)^3
Volume(om) == IF om = "matter" THEN <<T(4, 1, -15), T(-8, 1, -20), T(4, 1, -25)>> ELSE <<T(1, 1, 20), T(-2, 1, 10), T(1, 1, 0)>>
Rate == <<T(227, 10000000, 17)>>
Edge(op, i) == <<op.lo * (op.bins - i) + op.hi * i, 10000 * op.bins>>
Rates(s, op) == [r |-> "ok", terms |-> Integral(Times(Volume(s.c.om), Rate)), edges |-> [i \in 1..(op.bins + 1) |-> Edge(op, i - 1)]]
\* photometric detection above signal to noise 5; spectroscopic: log odds against, in 1e-5
Eff(op) == [r |-> "ok", phot |-> [i \in 1..Len(op.snr) |-> IF op.snr[i] > 5000 THEN 1 ELSE 0],
            odds |-> [i \in 1..Len(op.mag) |-> 236 * op.mag[i] - 5190000]]

Step(s, op) ==
  CASE op.k = "add" -> [s |-> IF CanAdd(s, op.kind, op.src) THEN [s EXCEPT !.nodes = Append(@, [kind |-> op.kind, src |-> op.src])] ELSE s,
                        out |-> [r |-> IF CanAdd(s, op.kind, op.src) THEN "ok" ELSE "none"]]
    [] op.k = "set" -> [s |-> [s EXCEPT !.given = [i \in 1..Len(@) |-> IF @[i].n = op.n THEN [n |-> op.n, v |-> op.v] ELSE @[i]]], out |-> [r |-> "ok"]]
    [] op.k = "sample" -> [s |-> s, out |-> [r |-> "ok", cols |-> [k \in 1..Len(s.nodes) |-> [i \in 1..Size(s) |-> Col(s, k, i)]]]]
    [] op.k = "conv" -> [s |-> s, out |-> Convert(op)]
    [] op.k = "rates" -> [s |-> s, out |-> Rates(s, op)]
    [] op.k = "eff" -> [s |-> s, out |-> Eff(op)]

\* ---------------------------------------------------------------- properties of the specification
StateInv(s) ==
  /\ \A i \in 1..Len(s.given) : Len(s.given[i].v) = Size(s)
  /\ \A k \in 1..Len(s.nodes) : s.nodes[k].src < k
  \* converting a flux to a magnitude and back changes nothing
  /\ \A k \in 1..Len(s.nodes) : s.nodes[k].kind = "flux" /\ s.nodes[k].src > 0 =>
       LET m == s.nodes[k].src IN \A i \in 1..Size(s) : Col(s, k, i) = Col(s, s.nodes[m].src, i)
  \* brighter by five magnitudes is a hundred times the flux
  /\ Has(s, "mag") => \A i, j \in 1..Size(s) : Given(s, "mag")[i] = Given(s, "mag")[j] + 5000 => Flux(Given(s, "mag")[j]).x = Flux(Given(s, "mag")[i]).x + 200000
StepInv(s, op, out, s2) ==
  /\ op.k \notin {"add", "set"} => s2 = s
  /\ op.k = "set" => s2.nodes = s.nodes /\ \A i \in 1..Len(s.given) : s.given[i].n # op.n => s2.given[i] = s.given[i]
  /\ op.k = "sample" => Len(out.cols) = Len(s.nodes)
  \* d_A (1 + z)^2 = d_L
  /\ op.k = "sample" /\ Has(s, "z") => \A i \in 1..Size(s) : LET z == Given(s, "z")[i] om == s.c.om IN
       AngN(om, z) * LumD(om, z) * z[1] * z[1] * z[1] * z[1] = LumN(om, z) * AngD(om, z) * z[2] * z[2] * z[2] * z[2]

Vals == [z |-> {<<<<6, 5>>, <<3, 2>>>>, <<<<2, 1>>, <<2, 1>>>>}, x1 |-> {<<1000, -500>>}, c |-> {<<100, -50>>}, alpha |-> {<<150, 150>>},
         beta |-> {<<3100, 3000>>}, m |-> {<<-19365, -19000>>}, mu |-> {<<35000, 41250>>}, mag |-> {<<20000, 25000>>, <<31400, 31400>>},
         sep |-> {<<5, 120>>}, lgm |-> {<<800000, 930100>>}, lge |-> {<<-100000, 0>>}]
GivenNames == <<"z", "x1", "c", "alpha", "beta", "m", "mu", "mag", "sep", "lgm", "lge">>
MCConfigs == {[om |-> om, h0 |-> h, givens |-> [i \in 1..Len(GivenNames) |-> [n |-> GivenNames[i], v |-> CHOOSE v \in Vals[GivenNames[i]] : TRUE]]]
              : om \in {"matter", "lambda"}, h \in {70}}
MCOps(s) ==
  {[k |-> "sample"]}
  \cup {o \in {[k |-> "add", kind |-> kind, src |-> src] : kind \in MCKinds, src \in 0..Len(s.nodes)} : Len(s.nodes) < MCLen /\ CanAdd(s, o.kind, o.src)}
  \cup UNION {{[k |-> "set", n |-> n, v |-> v] : v \in Vals[n] \ {Given(s, n)}} : n \in {"z", "mag"}}
====
