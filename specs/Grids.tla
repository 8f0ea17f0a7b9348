---- MODULE Grids ----
(***************************************************************************
 Surfaces over phase and wavelength that are given on a grid: bicubic interpolation (linear in the outermost
 cells, zero outside), the SALT2 model built from two of them and a colour law, splines, and spectra that do
 not change with time.  Coordinates are integers, and a query lies at a quarter of a cell, so that the values
 are exact (in units of 1/16384).

 cfg: kind  "bicubic" | "salt" | "spline" | "sed" | "bayesn" | "series"
      xs, ys   the axes (sed: ys per spectrum)
      z, z1    the values on the grid (z1: the second component of "salt"; sed: z[spectrum] per wavelength)
      series: a time series of spectra; it keeps its first spectrum before the first phase (zero = 0) or is dark
               there (zero = 1), keeps its last one after the last phase, and is dark outside its wavelengths
      bayesn: a template z (a function of phase plus a function of wavelength) and a surface of magnitudes
               z1 + theta z2 (tenths) on the knots ks, ls, both natural cubic splines; axes of 3 or 4 equal steps
      lo, hi   bounds of the colour law, in half units of its variable;  a  its coefficients (thousandths)
 Ops: "set"    par                  one entry per sample:  x0, x1 (quarters), c (thousandths) | amp | idx | th, av, rv, amp
      "query"  p, w                 the surface on the cross product, for every sample (the colour law of a SALT
                                    surface applies at half units, so c # 0 needs wavelengths that are multiples of four)
      "law"    w, ver               the colour law read from a file of the given version (0: none given)
      "mask"   t0, z, ts            which times are of interest (salt, bayesn, series; z: 1 + z; times in tenths)
      "build"  xs, ys, rows, cols   is this a valid grid?
 State: c, par
 ***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MCSize

Params(kind) == CASE kind = "salt" -> [x0 |-> 1, x1 |-> 0, c |-> 0] [] kind \in {"spline", "series"} -> [amp |-> 1] [] kind = "sed" -> [idx |-> 1]
                   [] kind = "bayesn" -> [th |-> 0, av |-> 0, rv |-> 3, amp |-> 1] [] OTHER -> [none |-> 0]
InitState(c) == [c |-> c, par |-> <<Params(c.kind)>>]
Obs(s) == s.par

\* ---------------------------------------------------------------- interpolation
Inside(ax, q) == ax[1] <= q /\ q <= ax[Len(ax)]
\* the cell of a coordinate (the last one includes its upper end) and the position in it, in quarters
Cell(ax, q) == LET I == {i \in 1..(Len(ax) - 1) : ax[i] <= q} IN CHOOSE i \in I : \A j \in I : j <= i
Quarter(ax, q) == LET i == Cell(ax, q) IN ((q - ax[i]) * 4) \div (ax[i + 1] - ax[i])
Border(ax, i) == i = 1 \/ i >= Len(ax) - 1
\* Catmull-Rom weights times 128 of the four points around a position
Weights(k) == CASE k = 0 -> <<0, 128, 0, 0>> [] k = 1 -> <<-9, 111, 29, -3>> [] k = 2 -> <<-8, 72, 72, -8>> [] k = 3 -> <<-3, 29, 111, -9>> [] k = 4 -> <<0, 0, 128, 0>>
Linear(k) == <<128 - 32 * k, 32 * k>>
Bilinear(xs, ys, z, p, w) ==
  LET i == Cell(xs, p) j == Cell(ys, w)
      u == Linear(Quarter(xs, p)) v == Linear(Quarter(ys, w)) IN
  u[1] * (v[1] * z[i][j] + v[2] * z[i][j + 1]) + u[2] * (v[1] * z[i + 1][j] + v[2] * z[i + 1][j + 1])
RECURSIVE Dot(_, _, _)
Dot(u, f(_), n) == IF n = 0 THEN 0 ELSE u[n] * f(n) + Dot(u, f, n - 1)
Bicubic(xs, ys, z, p, w) ==
  LET i == Cell(xs, p) j == Cell(ys, w)
      v == Weights(Quarter(ys, w))
      Row(a) == Dot(v, LAMBDA b : z[i - 2 + a][j - 2 + b], 4) IN
  Dot(Weights(Quarter(xs, p)), Row, 4)
Surface(xs, ys, z, p, w) ==
  IF ~Inside(xs, p) \/ ~Inside(ys, w) THEN 0
  ELSE IF Border(xs, Cell(xs, p)) \/ Border(ys, Cell(ys, w)) THEN Bilinear(xs, ys, z, p, w)
  ELSE Bicubic(xs, ys, z, p, w)
\* a spectrum: linear between its points, zero outside
Spectrum(ys, z, w) == IF ~Inside(ys, w) THEN 0
                      ELSE LET j == Cell(ys, w) v == Linear(Quarter(ys, w)) IN 128 * (v[1] * z[j] + v[2] * z[j + 1])

\* ---------------------------------------------------------------- natural cubic splines
\* y: the values at 3 or 4 equally spaced points; the value at quarter k of cell i, times 3840
Bend(y, i) == y[i + 1] - 2 * y[i] + y[i - 1]
Moment(y, i) == IF i = 1 \/ i = Len(y) THEN 0       \* ten times h^2 times the second derivative
                ELSE IF Len(y) = 3 THEN 15 * Bend(y, i)
                ELSE 4 * (4 * Bend(y, i) - Bend(y, IF i = 2 THEN 3 ELSE 2))
Curl(k) == k * k * k - 16 * k
Natural(y, i, k) == 960 * ((4 - k) * y[i] + k * y[i + 1]) + Curl(4 - k) * Moment(y, i) + Curl(k) * Moment(y, i + 1)
At(ax, y, q) == Natural(y, Cell(ax, q), Quarter(ax, q))
\* a function of phase plus a function of wavelength:  z[i][j] = z[i][1] + z[1][j] - z[1][1]
Template(xs, ys, z, p, w) == At(xs, [i \in 1..Len(xs) |-> z[i][1]], p) + At(ys, z[1], w) - 3840 * z[1][1]
\* the tensor product, times 3840^2
Tensor(xs, ys, z, p, w) == At(xs, [i \in 1..Len(xs) |-> At(ys, z[i], w)], p)

\* ---------------------------------------------------------------- colour law
\* The variable is k/2.  Coefficients: one minus the sum of the given ones (at most six), then these; in units of 1/128000
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE q[1] + Total(Tail(q))
Used(a) == IF Len(a) > 6 THEN SubSeq(a, 1, 6) ELSE a
Coefs(a) == <<1000 - Total(Used(a))>> \o Used(a)
Poly(a, k) == LET c == Coefs(a) IN Dot(c, LAMBDA n : Pow(k, n) * Pow(2, 7 - n), Len(c))
Slope(a, k) == LET c == Coefs(a) IN Dot(c, LAMBDA n : n * Pow(k, n - 1) * Pow(2, 7 - n), Len(c))     \* per half unit
Law(c, k) == -(IF k < c.lo THEN Poly(c.a, c.lo) + Slope(c.a, c.lo) * (k - c.lo)
               ELSE IF k > c.hi THEN Poly(c.a, c.hi) + Slope(c.a, c.hi) * (k - c.hi)
               ELSE Poly(c.a, k))

\* ---------------------------------------------------------------- operations
Clamp(ax, q) == IF q < ax[1] THEN ax[1] ELSE IF q > ax[Len(ax)] THEN ax[Len(ax)] ELSE q
\* wavelengths of a SALT grid are eighths of the colour law's variable
Value(s, par, p, w) ==
  CASE s.c.kind = "bicubic" -> Surface(s.c.xs, s.c.ys, s.c.z, p, w)
    [] s.c.kind = "salt" -> par.x0 * (4 * Surface(s.c.xs, s.c.ys, s.c.z, p, w) + par.x1 * Surface(s.c.xs, s.c.ys, s.c.z1, p, w))
    [] s.c.kind = "spline" -> par.amp * (IF Inside(s.c.ys, w) THEN Bilinear(s.c.xs, s.c.ys, s.c.z, p, w) ELSE 0)
    [] s.c.kind = "series" -> par.amp * (IF ~Inside(s.c.ys, w) \/ (s.c.zero = 1 /\ p < s.c.xs[1]) THEN 0 ELSE Bilinear(s.c.xs, s.c.ys, s.c.z, Clamp(s.c.xs, p), w))
    [] s.c.kind = "bayesn" -> par.amp * Template(s.c.xs, s.c.ys, s.c.z, p, w)
    [] s.c.kind = "sed" -> Spectrum(s.c.ys[par.idx], s.c.z[par.idx], w)
Phases(c) == IF c.kind = "series" THEN <<10 * c.xs[1], 10 * c.xs[Len(c.xs)]>> ELSE <<-200, 500>>      \* tenths of a day
Magnitude(s, par, p, w) ==
  IF s.c.kind # "bayesn" THEN 0
  ELSE Tensor(s.c.ks, s.c.ls, [i \in 1..Len(s.c.ks) |-> [j \in 1..Len(s.c.ls) |-> s.c.z1[i][j] + par.th * s.c.z2[i][j]]], p, w)
Rising(q) == \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
Step(s, op) ==
  CASE op.k = "set" -> [s |-> [s EXCEPT !.par = op.par], out |-> [r |-> "ok"]]
    [] op.k = "query" -> [s |-> s, out |-> [r |-> "ok", v |-> [n \in 1..Len(s.par) |-> [i \in 1..Len(op.p) |-> [j \in 1..Len(op.w) |-> Value(s, s.par[n], op.p[i], op.w[j])]]],
                                            law |-> [j \in 1..Len(op.w) |-> IF s.c.kind = "salt" THEN Law(s.c, op.w[j] \div 4) ELSE 0],
                                            mag |-> [n \in 1..Len(s.par) |-> [i \in 1..Len(op.p) |-> [j \in 1..Len(op.w) |-> Magnitude(s, s.par[n], op.p[i], op.w[j])]]]]]
    [] op.k = "law" -> [s |-> s, out |-> IF op.ver > 1 THEN [r |-> "RuntimeError"] ELSE [r |-> "ok", law |-> [j \in 1..Len(op.w) |-> Law(s.c, op.w[j])]]]
    [] op.k = "mask" -> [s |-> s, out |-> [r |-> "ok", m |-> [i \in 1..Len(op.ts) |-> op.ts[i] > op.t0 + Phases(s.c)[1] * op.z /\ op.ts[i] < op.t0 + Phases(s.c)[2] * op.z]]]
    [] op.k = "build" -> [s |-> s, out |-> [r |-> IF Rising(op.xs) /\ Rising(op.ys) /\ Len(op.xs) >= 3 /\ Len(op.ys) >= 3
                                                     /\ op.rows = Len(op.xs) /\ op.cols = Len(op.ys) THEN "ok" ELSE "ValueError"]]

\* ---------------------------------------------------------------- properties of the specification
StateInv(s) ==
  /\ \A k \in 0..4 : Total(Weights(k)) = 128 /\ Total(Linear(k)) = 128
  /\ s.c.kind \in {"bicubic", "spline"} =>                         \* the surface passes through the grid
       \A i \in 1..Len(s.c.xs), j \in 1..Len(s.c.ys) : s.c.kind = "bicubic" => Surface(s.c.xs, s.c.ys, s.c.z, s.c.xs[i], s.c.ys[j]) = 16384 * s.c.z[i][j]
  /\ s.c.kind = "bayesn" =>                                       \* so does the template, which is constant for equal values
       /\ \A i \in 1..Len(s.c.xs), j \in 1..Len(s.c.ys) : Template(s.c.xs, s.c.ys, s.c.z, s.c.xs[i], s.c.ys[j]) = 3840 * s.c.z[i][j]
       /\ \A k \in 0..4, n \in 3..4 : Natural([i \in 1..n |-> i], 2, k) = 960 * (8 + k) /\ Natural([i \in 1..n |-> 5], 1, k) = 5 * 3840
  /\ s.c.kind = "series" =>                                        \* the last spectrum lasts
       \A j \in 1..Len(s.c.ys) : Value(s, [amp |-> 1], s.c.xs[Len(s.c.xs)] + 400, s.c.ys[j]) = 16384 * s.c.z[Len(s.c.xs)][j]
  /\ s.c.kind = "salt" =>                                          \* no correction in B, one magnitude per unit in V
       /\ 0 \in s.c.lo..s.c.hi => Law(s.c, 0) = 0
       /\ 2 \in s.c.lo..s.c.hi => Law(s.c, 2) = -128000
OnQuarter(ax, q) == ~Inside(ax, q) \/ LET i == Cell(ax, q) IN 4 * (q - ax[i]) = Quarter(ax, q) * (ax[i + 1] - ax[i])
StepInv(s, op, out, s2) ==
  /\ op.k = "query" /\ s.c.kind # "sed" => (\A i \in 1..Len(op.p) : OnQuarter(s.c.xs, op.p[i])) /\ (\A j \in 1..Len(op.w) : OnQuarter(s.c.ys, op.w[j]))
  /\ op.k = "query" /\ s.c.kind = "bayesn" => (\A i \in 1..Len(op.p) : OnQuarter(s.c.ks, op.p[i])) /\ (\A j \in 1..Len(op.w) : OnQuarter(s.c.ls, op.w[j]))
  /\ op.k = "query" /\ s.c.kind = "sed" => \A n \in 1..Len(s.par), j \in 1..Len(op.w) : OnQuarter(s.c.ys[s.par[n].idx], op.w[j])
  /\ op.k # "set" => s2 = s
  /\ s2.c = s.c
  /\ op.k = "query" /\ s.c.kind = "bicubic" =>                     \* zero outside
       \A i \in 1..Len(op.p), j \in 1..Len(op.w) : ~Inside(s.c.xs, op.p[i]) \/ ~Inside(s.c.ys, op.w[j]) => out.v[1][i][j] = 0

\* ---------------------------------------------------------------- exhaustive exploration: every quarter of every cell
Mesh(i, j) == ((7 * i * i + 3 * j * i) % 11) - 4
Other(i, j) == (5 * i + j * j) % 7
Table(f(_, _), n, m) == [i \in 1..n |-> [j \in 1..m |-> f(i, j)]]
Axes == IF MCSize = 1 THEN {<<0, 4, 8, 12, 16>>, <<-8, -4, 4, 8, 16>>} ELSE {<<0, 4, 8, 12, 16>>, <<-8, -4, 4, 8, 16>>, <<-4, 0, 4>>, <<0, 8, 12, 16>>, <<-16, -8, 0, 8, 16, 24>>}
MCConfigs ==
  {[kind |-> kind, xs |-> xs, ys |-> ys, z |-> Table(Mesh, Len(xs), Len(ys)), z1 |-> <<>>, lo |-> 0, hi |-> 0, a |-> <<>>]
   : kind \in {"bicubic", "spline"}, xs \in Axes, ys \in Axes}
  \cup {[kind |-> "salt", xs |-> xs, ys |-> ys, z |-> Table(Mesh, Len(xs), Len(ys)), z1 |-> Table(Other, Len(xs), Len(ys)), lo |-> -2, hi |-> 3, a |-> a]
   : xs \in Axes, ys \in {<<-24, -8, 8, 24, 40>>, <<-16, 0, 16, 32>>}, a \in {<<-500, 300, 100>>, <<>>}}
  \cup {[kind |-> "bayesn", xs |-> <<-8, 0, 8>>, ys |-> ys, z |-> [i \in 1..3 |-> [j \in 1..Len(ys) |-> i * i + ((3 * j * j) % 7) + 1]],
          ks |-> <<-24, -8, 8>>, ls |-> ls, z1 |-> Table(Other, 3, Len(ls)), z2 |-> Table(Mesh, 3, Len(ls)), lo |-> 0, hi |-> 0, a |-> <<>>]
        : ys \in {<<0, 8, 16>>, <<-8, 0, 8, 16>>}, ls \in {<<0, 8, 16>>, <<0, 8, 16, 24>>}}
  \cup {[kind |-> "series", xs |-> xs, ys |-> ys, z |-> Table(Other, Len(xs), Len(ys)), z1 |-> <<>>, lo |-> 0, hi |-> 0, a |-> <<>>, zero |-> zero]
        : xs \in Axes, ys \in {ys \in Axes : Len(ys) > 3}, zero \in 0..1}
  \cup {[kind |-> "sed", xs |-> <<>>, ys |-> <<<<0, 4, 12>>, <<-4, 0, 4, 8, 12>>>>, z |-> <<<<1, 5, 2>>, <<0, 3, -1, 4, 7>>>>, z1 |-> <<>>, lo |-> 0, hi |-> 0, a |-> <<>>]}
RECURSIVE Positions(_, _)
Positions(ax, i) == IF i = Len(ax) THEN <<ax[i], ax[i] + 4>>
                    ELSE LET d == (ax[i + 1] - ax[i]) \div 4 IN <<ax[i], ax[i] + d, ax[i] + 2 * d, ax[i] + 3 * d>> \o Positions(ax, i + 1)
Outer(ax) == <<ax[1] - 4>> \o Positions(ax, 1)
MCOps(s) ==
  LET k == s.c.kind IN
  {[k |-> "query", p |-> IF k = "bayesn" THEN <<-8, -4, 4, 8>> ELSE IF k = "sed" THEN <<-5, 3>> ELSE IF k = "spline" THEN SubSeq(Positions(s.c.xs, 1), 1, 4 * Len(s.c.xs) - 3) ELSE IF k = "series" THEN s.c.xs \o <<s.c.xs[1] - 4, s.c.xs[Len(s.c.xs)] + 40>> ELSE Outer(s.c.xs),
    w |-> IF k = "bayesn" THEN <<0, 2, 4, 6, 8, 10, 14, 16>> ELSE IF k = "sed" THEN Outer(s.c.ys[1]) ELSE IF k = "salt" THEN <<-60, -20, -12, 4, 12, 36, 80>> ELSE IF k = "series" THEN <<s.c.ys[1] - 4>> \o s.c.ys \o <<s.c.ys[Len(s.c.ys)] + 4>> ELSE Outer(s.c.ys)]}
  \cup (IF k = "salt" THEN {[k |-> "set", par |-> <<[x0 |-> 2, x1 |-> x1, c |-> c], [x0 |-> 1, x1 |-> 1, c |-> 0]>>] : x1 \in {-4, 6}, c \in {-100, 200}}
                            \cup {[k |-> "law", w |-> <<-5, -2, -1, 0, 2, 3, 4, 9>>, ver |-> v] : v \in 0..2}
                            \cup {[k |-> "mask", t0 |-> 100, z |-> 2, ts |-> <<-301, -300, -299, 1099, 1100, 1101>>]} ELSE {})
  \cup (IF k = "bayesn" THEN {[k |-> "set", par |-> <<[th |-> 1, av |-> av, rv |-> 4, amp |-> 2], [th |-> -1, av |-> 0, rv |-> 2, amp |-> 1]>>] : av \in {0, 2}}
                             \cup {[k |-> "mask", t0 |-> 100, z |-> 2, ts |-> <<-301, -300, -299, 1099, 1100, 1101>>]} ELSE {})
  \cup (IF k = "series" THEN {[k |-> "mask", t0 |-> 100, z |-> 2, ts |-> <<100 + 20 * s.c.xs[1], 101 + 20 * s.c.xs[1], 99 + 20 * s.c.xs[Len(s.c.xs)], 100 + 20 * s.c.xs[Len(s.c.xs)]>>]} ELSE {})
  \cup (IF k \in {"spline", "series"} THEN {[k |-> "set", par |-> <<[amp |-> 3], [amp |-> -1]>>]} ELSE {})
  \cup (IF k = "sed" THEN {[k |-> "set", par |-> <<[idx |-> 2], [idx |-> 1]>>]} ELSE {})
  \cup (IF k = "bicubic" THEN {[k |-> "build", xs |-> SubSeq(s.c.xs, 1, n), ys |-> s.c.ys, rows |-> n, cols |-> m] : n \in {2, 3}, m \in {Len(s.c.ys), 2}} ELSE {})
====
