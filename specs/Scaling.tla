---- MODULE Scaling ----
(***************************************************************************
 What must hold between measurements of quantities that have no exact value here: scaling laws, monotony,
 symmetry and frequencies.  Logarithms (base ten) are integers in units of 1e-5.

 cfg: law, tol
   "bb"    black body: the luminosity v of a sphere depends on T w alone up to the factor R^2 T^3
   "disk"  accretion disk: M^(1/2) A^(3/4) cos i / d^2 phi(nu^4 M^2 / A)
   "cosmo" luminosity distances, distance moduli and angular distances of one cosmology belong together
           (d_L H0 depends on z alone, d_A = d_L / (1+z)^2, mu = 5 log d_L - 5), and grow with z
   "count" frequencies of outcomes
   "rates" numbers of supernovae: proportional to the solid angle and to nothing else, additive over bins
 Events: "bb": [T, R, w, v]   "disk": [m, a, nu, d, cos, v]   "cosmo": [what, h, z, zz (log 1+z), v]
         "count": [n, c, p]  c[i] of n draws had outcome i, whose probability is p[i] permille
         "rates": [id, sr, whole, parts]   logs of the solid angle and of sums (whole: over all bins)
 State: known: the reduced value per reduced argument, first seen
 ***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Nothing == [x \in {} |-> 0]
TInit(c) == [c |-> c, known |-> Nothing]

Arg(s, e) ==
  CASE s.c.law = "bb" -> e.T + e.w
    [] s.c.law = "disk" -> 4 * e.nu - e.a + 2 * e.m
    [] s.c.law = "cosmo" -> e.z
    [] s.c.law = "rates" -> e.id
Red(s, e) ==
  CASE s.c.law = "bb" -> e.v - 2 * e.R - 3 * e.T
    [] s.c.law = "disk" -> 4 * e.v - 4 * e.cos + 8 * e.d - 2 * e.m - 3 * e.a
    [] s.c.law = "cosmo" -> (CASE e.what = "dl" -> e.v                       \* log of pc
                               [] e.what = "mod" -> e.v + 100000             \* a fifth of the distance modulus
                               [] e.what = "da" -> e.v + 2 * e.zz) + e.h
    [] s.c.law = "rates" -> e.v - e.sr
Ok(s) == [ok |-> TRUE, clause |-> "", s |-> s]
No(s, t) == [ok |-> FALSE, clause |-> t, s |-> s]

Scaled(s, e) ==
  LET a == Arg(s, e)
      r == Red(s, e)
      near == {x \in DOMAIN s.known : Abs(x - a) <= 1} IN
  IF \E x \in near : Abs(s.known[x] - r) > s.c.tol THEN No(s, "the scaling law does not hold")
  ELSE IF s.c.law = "cosmo" /\ \E x \in DOMAIN s.known : (x < a /\ s.known[x] >= r + s.c.tol) \/ (x > a /\ s.known[x] + s.c.tol <= r)
       THEN No(s, "the distance does not grow with redshift")
  ELSE Ok([s EXCEPT !.known = [x \in DOMAIN s.known \cup {a} |-> IF x \in DOMAIN s.known THEN s.known[x] ELSE r]])
\* Six standard deviations
Rare(n, c, p) == LET d == Abs(c - (n * p) \div 1000) IN d > 2 /\ (d - 1) * (d - 1) > (36 * n * ((p * (1000 - p)) \div 1000)) \div 1000
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
Count(s, e) ==
  IF Sum(e.c) # e.n THEN No(s, "an outcome that is impossible")
  ELSE IF \E i \in 1..Len(e.c) : Rare(e.n, e.c[i], e.p[i]) THEN No(s, "the frequencies are not those of the distribution")
  ELSE Ok(s)
Accept(s, e) == IF s.c.law = "count" THEN Count(s, e) ELSE Scaled(s, e)
TInv(s) == TRUE
====
