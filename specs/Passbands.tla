---- MODULE Passbands ----
(***************************************************************************
 Passbands and groups of passbands, in exact arithmetic.

 A wavelength is an integer of a lattice whose points divide 720 (the driver
 multiplies by a number of Angstroms); gaps between neighbouring points of a
 transmission table divide 60.  A transmission is a small integer, so that the
 linear interpolation of the table and transmission / wavelength are integers
 after multiplication by 43200; a band flux is the quotient of two integers.

 Passband: [sv, ft] survey and filter name, tab: Seq(<<x, T>>) the given table,
           j: 1 if all its wavelengths are a little (more than the merge threshold) above the lattice's
           grid: Seq(<<x, w>>) the response w (not normalized, times 43200)
 State: order   Seq(full name), the passbands in the order they were added
        pb      full name -> passband

 Trimming may keep or drop one grid point at each end of the central part
 (op.win gives, per passband, the first and last wavelength it kept).
 ***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MCDeltas

L == 720
G == 60
RECURSIVE SumTo(_, _)
SumTo(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + SumTo(F, n - 1)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Set(q) == {q[k] : k \in 1..Len(q)}
Full(p) == p.sv \o "_" \o p.ft

\* ---------------------------------------------------------------- one passband
(* Equal wavelengths are merged by averaging (at most two in a row, with an even sum) *)
RECURSIVE Merge(_)
Merge(t) == IF Len(t) < 2 THEN t
            ELSE IF t[1][1] = t[2][1] THEN <<<<t[1][1], (t[1][2] + t[2][2]) \div 2>>>> \o Merge(SubSeq(t, 3, Len(t)))
            ELSE <<t[1]>> \o Merge(Tail(t))
(* G times the transmission at x by linear interpolation *)
Trans(t, x) ==
  LET k == CHOOSE j \in 1..Len(t) : t[j][1] <= x /\ (j = Len(t) \/ x < t[j + 1][1]) IN
  IF t[k][1] = x THEN G * t[k][2]
  ELSE (t[k][2] * (t[k + 1][1] - x) + t[k + 1][2] * (x - t[k][1])) * (G \div (t[k + 1][1] - t[k][1]))
(* The wavelengths after regridding: equal steps of at least delta over the same range; delta = 0: unchanged *)
Regrid(t, delta) ==
  IF delta = 0 THEN [k \in 1..Len(t) |-> t[k][1]]
  ELSE LET lo == t[1][1]
           n == (t[Len(t)][1] - lo) \div delta IN
       IF n = 0 THEN <<lo>>
       ELSE [k \in 1..(n + 1) |-> lo + ((k - 1) * (t[Len(t)][1] - lo)) \div n]
(* Twice the area below the transmission up to the k-th grid point *)
Area(t, ws, k) == SumTo(LAMBDA j : (Trans(t, ws[j]) + Trans(t, ws[j + 1])) * (ws[j + 1] - ws[j]), k - 1)
(* win = <<first, last>> is a permitted result of trimming the tails of fraction q[1]/q[2] *)
TrimOK(t, ws, q, win) ==
  LET n == Len(ws)
      A(k) == Area(t, ws, k)
      tot == A(n) IN
  \E lo \in 1..n : \E hi \in lo..n :
    /\ ws[lo] = win[1] /\ ws[hi] = win[2]
    /\ IF q[1] = 0 THEN lo = 1 /\ hi = n
       ELSE /\ A(lo) * q[2] <= q[1] * tot
            /\ (lo + 2 <= n => A(lo + 2) * q[2] >= q[1] * tot)
            /\ (hi + 1 <= n => A(hi + 1) * q[2] >= (q[2] - q[1]) * tot)
            /\ (hi > 1 => A(hi - 1) * q[2] <= (q[2] - q[1]) * tot)
Response(t, ws) == [k \in 1..Len(ws) |-> <<ws[k], Trans(t, ws[k]) * (L \div ws[k])>>]
Cut(ws, win) == SelectSeq(ws, LAMBDA x : win[1] <= x /\ x <= win[2])
Norm(g) == SumTo(LAMBDA j : (g[j][2] + g[j + 1][2]) * (g[j + 1][1] - g[j][1]), Len(g) - 1)
(* The result of processing a table: "ok" with the response, or the reason of the error *)
Process(t, delta, q, win) ==
  LET ws == Regrid(t, delta) IN
  IF Len(ws) < 2 THEN [r |-> "ValueError"]
  ELSE IF win # <<>> /\ ~TrimOK(t, ws, q, win) THEN [r |-> "trimming"]
  ELSE LET g == Response(t, IF win = <<>> THEN ws ELSE Cut(ws, win)) IN
       IF Len(g) < 2 THEN [r |-> "ValueError"]
       ELSE IF Norm(g) = 0 THEN [r |-> "ValueError"] ELSE [r |-> "ok", grid |-> g]
(* Band flux of the spectrum f (wavelength -> integer), as a fraction *)
Flux(g, f) == <<SumTo(LAMBDA j : (g[j][2] * f[g[j][1]] + g[j + 1][2] * f[g[j + 1][1]]) * (g[j + 1][1] - g[j][1]), Len(g) - 1), Norm(g)>>

\* ---------------------------------------------------------------- groups
(* 2 x + j: the wavelengths of a passband with j = 1 are just above those of the lattice *)
Waves(s) == Sorted(UNION {{2 * s.pb[n].grid[k][1] + s.pb[n].j : k \in 1..Len(s.pb[n].grid)} : n \in DOMAIN s.pb})
Matching(s, name) == SelectSeq(s.order, LAMBDA n : s.pb[n].ft = name)
(* <<>> unknown, <<full name>>, or several full names *)
Resolve(s, name) == IF name \in DOMAIN s.pb THEN <<name>> ELSE Matching(s, name)
RECURSIVE Filters(_, _)
Filters(s, k) == IF k = 0 THEN <<>>
                 ELSE LET q == Filters(s, k - 1)
                          f == s.pb[s.order[k]].ft IN IF f \in Set(q) THEN q ELSE Append(q, f)
Put(s, p) == LET n == Full(p) IN
  [order |-> IF n \in DOMAIN s.pb THEN s.order ELSE Append(s.order, n),
   pb |-> [x \in DOMAIN s.pb \cup {n} |-> IF x = n THEN p ELSE s.pb[x]]]
Res(s, out) == [s |-> s, out |-> out]
Empty == [order |-> <<>>, pb |-> [x \in {} |-> 0]]
InitState(c) == Empty

(* op.d = <<sv, ft, table, delta, q, win>> : construct a passband and add it *)
Make(d) == LET t == Merge(d.tab)
               p == Process(t, d.delta, d.q, d.win) IN
  IF p.r # "ok" THEN [r |-> p.r] ELSE [r |-> "ok", p |-> [sv |-> d.sv, ft |-> d.ft, tab |-> t, grid |-> p.grid, j |-> d.j]]
AddAct(s, op) == LET m == Make(op.d) IN IF m.r # "ok" THEN Res(s, [r |-> m.r]) ELSE Res(Put(s, m.p), [r |-> "ok"])
RECURSIVE AddAll(_, _)
AddAll(s, ds) == IF ds = <<>> THEN Res(s, [r |-> "ok"])
                 ELSE LET r == AddAct(s, [d |-> ds[1]]) IN IF r.out.r # "ok" THEN r ELSE AddAll(r.s, Tail(ds))
Subset(s, flt) == LET keep(n) == n \in Set(flt) \/ s.pb[n].ft \in Set(flt)
                      o == SelectSeq(s.order, keep) IN [order |-> o, pb |-> [n \in Set(o) |-> s.pb[n]]]
Known(s, f) == f \in DOMAIN s.pb \/ \E n \in DOMAIN s.pb : s.pb[n].ft = f
(* A new group of new passbands, or of the passbands of this one; flt = <<>> or <<list of filters>> *)
BuildAct(s, op) ==
  LET a == IF op.ds = <<>> THEN Res(s, [r |-> "ok"]) ELSE AddAll(Empty, op.ds) IN
  IF a.out.r # "ok" THEN Res(s, a.out)
  ELSE IF a.s.order = <<>> THEN Res(s, [r |-> "ValueError"])
  ELSE IF op.flt = <<>> THEN Res(a.s, [r |-> "ok"])
  ELSE IF \E k \in 1..Len(op.flt[1]) : ~Known(a.s, op.flt[1][k]) THEN Res(s, [r |-> "ValueError"])
  ELSE Res(Subset(a.s, op.flt[1]), [r |-> "ok"])
(* Every passband is processed again; op.win : full name -> window *)
RegridAct(s, op) ==
  LET p == [n \in DOMAIN s.pb |-> Process(s.pb[n].tab, op.delta, op.q, IF n \in DOMAIN op.win THEN op.win[n] ELSE <<>>)] IN
  IF \E n \in DOMAIN p : p[n].r # "ok" THEN Res(s, [r |-> (CHOOSE n \in DOMAIN p : p[n].r # "ok")])
  ELSE Res([s EXCEPT !.pb = [n \in DOMAIN s.pb |-> [s.pb[n] EXCEPT !.grid = p[n].grid]]], [r |-> "ok"])
FluxAct(s, op) ==
  LET m == Resolve(s, op.name) IN
  IF m = <<>> THEN Res(s, [r |-> "unknown"])
  ELSE IF Len(m) > 1 THEN Res(s, [r |-> "ambiguous"])
  ELSE Res(s, [r |-> "flux", full |-> m[1], v |-> [k \in 1..Len(op.f) |-> Flux(s.pb[m[1]].grid, op.f[k])]])
AllAct(s, op) ==
  Res(s, [r |-> "fluxes", v |-> [i \in 1..Len(s.order) |-> [k \in 1..Len(op.f) |-> Flux(s.pb[s.order[i]].grid, op.f[k])]]])
MaskAct(s, op) == Res(s, [r |-> "mask", v |-> [k \in 1..Len(op.names) |-> Known(s, op.names[k])]])
Step(s, op) ==
  CASE op.k = "build" -> BuildAct(s, op)
    [] op.k = "add" -> AddAct(s, op)
    [] op.k = "regrid" -> RegridAct(s, op)
    [] op.k = "flux" -> FluxAct(s, op)
    [] op.k = "all" -> AllAct(s, op)
    [] op.k = "mask" -> MaskAct(s, op)

Obs(s) == [names |-> s.order, waves |-> Waves(s), filters |-> Filters(s, Len(s.order)),
           own |-> [k \in 1..Len(s.order) |-> [j \in 1..Len(s.pb[s.order[k]].grid) |-> s.pb[s.order[k]].grid[j]]],
           norm |-> [k \in 1..Len(s.order) |-> Norm(s.pb[s.order[k]].grid)]]

\* ---------------------------------------------------------------- properties of the specification
Abs(x) == IF x < 0 THEN -x ELSE x
Xs(g) == {g[k][1] : k \in 1..Len(g)}
StateInv(s) ==
  /\ Set(s.order) = DOMAIN s.pb /\ Cardinality(Set(s.order)) = Len(s.order)
  /\ \A n \in DOMAIN s.pb :
       LET g == s.pb[n].grid IN
       /\ Full(s.pb[n]) = n
       /\ \A k \in 1..Len(g) : L % g[k][1] = 0
       /\ \A k \in 1..(Len(g) - 1) : g[k][1] < g[k + 1][1]
       \* normalization: the flat spectrum gives its own value
       /\ LET v == Flux(g, [x \in Xs(g) |-> 3]) IN v[1] = 3 * v[2]
       \* linearity, and monotonicity in every point
       /\ LET f == [x \in Xs(g) |-> x % 5]
              h == [x \in Xs(g) |-> (x * x) % 7] IN
          /\ Flux(g, [x \in Xs(g) |-> f[x] + 2 * h[x]])[1] = Flux(g, f)[1] + 2 * Flux(g, h)[1]
          /\ Flux(g, [x \in Xs(g) |-> f[x] + 2 * h[x]])[1] >= Flux(g, f)[1]
       \* members see all their wavelengths in the group's grid
       /\ {2 * x + s.pb[n].j : x \in Xs(g)} \subseteq Set(Waves(s))
StepInv(s, op, out, s2) ==
  /\ op.k \in {"flux", "all", "mask"} => s2 = s
  /\ out.r \notin {"ok"} => s2 = s
  /\ op.k = "regrid" => s2.order = s.order
  /\ op.k = "add" /\ out.r = "ok" => \A n \in DOMAIN s.pb \ {Full(op.d)} : s2.pb[n] = s.pb[n]

\* ---------------------------------------------------------------- finite instance
D(sv, ft, tab, delta) == [sv |-> sv, ft |-> ft, tab |-> tab, delta |-> delta, q |-> <<0, 1>>, win |-> <<>>, j |-> 0]
P1 == D("A", "r", <<<<2, 0>>, <<4, 3>>, <<6, 1>>>>, 0)
P2 == D("A", "g", <<<<1, 1>>, <<5, 2>>>>, 2)
P3 == D("B", "r", <<<<4, 2>>, <<6, 2>>, <<10, 0>>>>, 2)
P4 == D("A", "r", <<<<1, 1>>, <<5, 4>>>>, 1)
MCConfigs == {[start |-> k] : k \in 1..1}
Spectrum == [x \in 1..12 |-> (x * x + 3) % 11]
MCOps(s) ==
  {[k |-> "build", ds |-> ds, flt |-> <<>>] : ds \in {<<P1, P2>>, <<P1, P2, P3>>}}
  \cup {[k |-> "build", ds |-> <<P1, P2, P3>>, flt |-> <<flt>>] : flt \in {<<"r">>, <<"A_r", "g">>, <<"r", "z">>}}
  \cup (IF s.order = <<>> THEN {} ELSE
        {[k |-> "add", d |-> P3], [k |-> "add", d |-> P4]}
        \cup {[k |-> "regrid", delta |-> d, q |-> <<0, 1>>, win |-> <<>>] : d \in MCDeltas}
        \cup {[k |-> "build", ds |-> <<>>, flt |-> <<flt>>] : flt \in {<<"r">>, <<"A_r">>}}
        \cup {[k |-> "flux", name |-> n, f |-> <<Spectrum>>] : n \in {"r", "A_r", "g"}}
        \cup {[k |-> "all", f |-> <<Spectrum, [x \in 1..12 |-> x]>>]})
====
