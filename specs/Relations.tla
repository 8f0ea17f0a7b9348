---- MODULE Relations ----
(***************************************************************************
 What must hold between any two evaluations of a model whose rest frame flux is
 not known to the specification: the flux is a function of the parameters, the
 rest frame phase and the rest frame wavelength alone, scaled by (1 + z) when the
 redshift is applied.  It does not depend on the order, the number or the company
 of the times and wavelengths, on the other samples, or on what was evaluated before.
 Band fluxes are the integrals of these same values over the passband.

 Times, phases and wavelengths are integers on a lattice and values are scaled integers.

 cfg:    per    period in ticks, 0 if the model is not periodic
         sym    the phase curve is symmetric about phase zero
         tol    tolerance in units of the scaled values
         bands  filter name -> Seq(<<wavelength, response>>)
 Events: [k |-> "ref", pid, phs, ws, v]  values of an independent implementation at
                                         rest phases phs, for parameter set pid
         [k |-> "sed", on, pid, z, t0, ts, ws, v]  evaluation of the samples: pid, z (1 + z as a fraction)
                                         and t0 per sample; v[sample][time][wavelength]
         [k |-> "band", on, pid, z, t0, ts, fs, v]  band fluxes; the SED is known at the wavelengths of the bands
 State:  known: <<pid, phase, wavelength>> -> <<value, 1 + z>>, the first value seen
 ***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Nothing == [x \in {} |-> 0]
TInit(c) == [c |-> c, known |-> Nothing]
Canon(c, ph) == IF c.per = 0 THEN ph ELSE LET m == ph % c.per IN IF c.sym /\ m > c.per - m THEN c.per - m ELSE m
ZOf(e, i) == IF e.on THEN e.z[i] ELSE <<1, 1>>
Phase(e, i, t) == LET z == ZOf(e, i) IN ((t - e.t0[i]) * z[2]) \div z[1]
Wave(e, i, w) == LET z == ZOf(e, i) IN (w * z[2]) \div z[1]
OnLattice(e, i, t, ws) == LET z == ZOf(e, i) IN
  ((t - e.t0[i]) * z[2]) % z[1] = 0 /\ \A b \in 1..Len(ws) : (ws[b] * z[2]) % z[1] = 0
Key(s, e, i, t, w) == <<e.pid[i], Canon(s.c, Phase(e, i, t)), Wave(e, i, w)>>
(* x and y: <<value, 1 + z>>; values divided by 1 + z agree *)
Agree(s, x, y) == Abs(x[1] * x[2][2] * y[2][1] - y[1] * y[2][2] * x[2][1]) <= s.c.tol * (x[2][2] * y[2][1] + y[2][2] * x[2][1])
Points(s, e) ==
  IF e.k = "ref" THEN {<< <<e.pid, Canon(s.c, e.phs[a]), e.ws[b]>>, <<e.v[a][b], <<1, 1>>>> >> : a \in 1..Len(e.phs), b \in 1..Len(e.ws)}
  ELSE {<< Key(s, e, i, e.ts[a], e.ws[b]), <<e.v[i][a][b], ZOf(e, i)>> >> : i \in 1..Len(e.pid), a \in 1..Len(e.ts), b \in 1..Len(e.ws)}
Extend(s, pts) == LET new == {p[1] : p \in pts} \ DOMAIN s.known IN
  [x \in DOMAIN s.known \cup new |-> IF x \in new THEN (CHOOSE p \in pts : p[1] = x)[2] ELSE s.known[x]]
Values(s, e) ==
  LET pts == Points(s, e)
      k2 == Extend(s, pts) IN
  IF \A p \in pts : Agree(s, p[2], k2[p[1]]) THEN [ok |-> TRUE, clause |-> "", s |-> [s EXCEPT !.known = k2]]
  ELSE [ok |-> FALSE, clause |-> "the flux at one rest frame phase and wavelength has two values", s |-> s]
RECURSIVE SumI(_, _)
SumI(F(_), n) == IF n = 0 THEN 0 ELSE SumI(F, n - 1) + F(n)
Norm(b) == SumI(LAMBDA j : (b[j][2] + b[j + 1][2]) * (b[j + 1][1] - b[j][1]), Len(b) - 1)
BandOK(s, e, i, a) ==
  LET b == s.c.bands[e.fs[a]]
      z == ZOf(e, i)
      \* value at wavelength number j, divided by its own 1 + z and times ours, times z[2]
      Val(j) == LET x == s.known[Key(s, e, i, e.ts[a], b[j][1])] IN (x[1] * x[2][2] * z[1]) \div x[2][1]
      total == SumI(LAMBDA j : (b[j + 1][1] - b[j][1]) * (b[j][2] * Val(j) + b[j + 1][2] * Val(j + 1)), Len(b) - 1) IN
  Abs(e.v[i][a] * z[2] * Norm(b) - total) <= (s.c.tol + 1) * Norm(b) * (z[1] + z[2])
Accept(s, e) ==
  IF e.k = "band"
  THEN IF \A i \in 1..Len(e.pid) : \A a \in 1..Len(e.ts) : BandOK(s, e, i, a) THEN [ok |-> TRUE, clause |-> "", s |-> s]
       ELSE [ok |-> FALSE, clause |-> "a band flux is not the integral of the SED over the band", s |-> s]
  ELSE Values(s, e)
TInv(s) == \A x \in DOMAIN s.known : x[3] > 0
====
