---- MODULE Sky ----
(***************************************************************************
 The samplers of sky positions: where a draw may lie after any history of draws, resets and
 filterings of the survey table that the sampler was given.

 cfg: kind   "sphere"  UniformRADEC
             "rows"    ObsTableRADECSampler: rows of the table as it was when the sampler was made
             "cover"   ObsTableUniformRADECSampler: anywhere in the coverage of the current table
             "moc"     ApproximateMOCSampler
      n      number of rows of the table (rows are 1..n)
      order  TRUE if the rows are delivered in order
      given  Seq(row): the rows of the table when the sampler was made
      exact  TRUE if the positions are the centers of the rows (radius 0)
      cells  Seq([o, p]): the pixels of the coverage map (order o, number p); the orders differ
      depth  the depth at which the map is approximated
      deep   the order at which the pixels of the samples are recorded (at least every o and depth)
 State: c, cur (rows delivered in order since the last reset), table (set of the current rows).

 Event: [k |-> "draw", num, r, samples]   samples: Seq([dom, near, moved, pix]):
           dom    TRUE if the position is one finite point of the sphere (within the range of ra and dec)
           near   Seq(row): the rows (by position within the radius; for "rows" also by the time delivered with it)
           pix    the pixel of order deep that holds the position
        [k |-> "reset"]                   the in-order sampler starts again
        [k |-> "filter", keep]            the survey table keeps only these rows
        [k |-> "stat", n, counts]         numbers of positions in equally large cells (or of equally likely rows)
        [k |-> "spread", n, inner]        number of n displacements smaller than half of the radius
 ***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MCLens, MCNums

Range(q) == {q[i] : i \in 1..Len(q)}
InitState(c) == [c |-> c, cur |-> 0, table |-> Range(c.given)]
TInit(c) == InitState(c)
Obs(s) == [left |-> Len(s.c.given) - s.cur, rows |-> Cardinality(s.table)]

RECURSIVE Pow4(_)
Pow4(k) == IF k = 0 THEN 1 ELSE 4 * Pow4(k - 1)
Up(p, from, to) == p \div Pow4(from - to)     \* the pixel of order `to` (at most `from`) that holds pixel p of order `from`

\* A pixel p of order `deep` lies in the approximated map: in a cell, or in the cell of order `depth` around a finer one.
InMap(c, p) == \E i \in 1..Len(c.cells) :
                 LET k == c.cells[i] IN
                 IF k.o <= c.depth THEN Up(p, c.deep, k.o) = k.p ELSE Up(p, c.deep, c.depth) = Up(k.p, k.o, c.depth)

\* ---------------------------------------------------------------- the deterministic part (rows in order)
Enough(s, num) == s.cur + num <= Len(s.c.given)
DrawOrdered(s, num) ==
  IF ~Enough(s, num) THEN [s |-> s, out |-> [r |-> "IndexError", rows |-> <<>>]]
  ELSE [s |-> [s EXCEPT !.cur = @ + num], out |-> [r |-> "ok", rows |-> [i \in 1..num |-> s.c.given[s.cur + i]]]]
Step(s, op) ==
  CASE op.k = "draw" -> DrawOrdered(s, op.num)
    [] op.k = "reset" -> [s |-> [s EXCEPT !.cur = 0], out |-> [r |-> "ok", rows |-> <<>>]]
    [] op.k = "filter" -> [s |-> [s EXCEPT !.table = @ \cap Range(op.keep)], out |-> [r |-> "ok", rows |-> <<>>]]

\* ---------------------------------------------------------------- acceptance of recorded draws
Where(s, x) ==
  CASE s.c.kind = "sphere" -> TRUE
    [] s.c.kind = "rows" -> Range(x.near) \cap Range(s.c.given) # {}
    [] s.c.kind = "cover" -> Range(x.near) \cap s.table # {}
    [] s.c.kind = "moc" -> InMap(s.c, x.pix)
\* Seven standard deviations around equal shares.
Even(n, counts) ==
  \A k \in 1..Len(counts) :
     LET K == Len(counts)
         d == K * counts[k] - n IN
     /\ d <= 20000 /\ d >= -20000
     /\ d * d <= 49 * n * (K - 1)
\* A quarter of the uniform positions in a disc is in its inner half; next to a pole, where the displacement
\* in ra counts for little, it may be more than the half of them.
SpreadOK(n, inner) == 20 * inner >= n /\ 5 * inner <= 4 * n
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))

Fail(s, why) == [ok |-> FALSE, clause |-> why, s |-> s]
Pass(s) == [ok |-> TRUE, clause |-> "", s |-> s]
AcceptDraw(s, e) ==
  LET d == DrawOrdered(s, e.num)
      ord == s.c.kind = "rows" /\ s.c.order IN
  IF ord /\ e.r # d.out.r THEN Fail(s, "an ordered draw raises IndexError exactly when too few rows remain")
  ELSE IF e.r = "IndexError" /\ ord THEN Pass(s)
  ELSE IF e.r # "ok" THEN Fail(s, "a draw never fails and returns the requested number of samples")
  ELSE IF Len(e.samples) # e.num THEN Fail(s, "number of samples")
  ELSE IF \E i \in 1..e.num : ~e.samples[i].dom THEN Fail(s, "ra and dec are coordinates of the sphere")
  ELSE IF ord /\ \E i \in 1..e.num : d.out.rows[i] \notin Range(e.samples[i].near)
       THEN Fail(s, "an ordered draw delivers the next rows, aligned and displaced by at most the radius")
  ELSE IF \E i \in 1..e.num : ~Where(s, e.samples[i])
       THEN Fail(s, CASE s.c.kind = "rows" -> "position and time belong to one row of the table, displaced by at most the radius"
                      [] s.c.kind = "cover" -> "positions lie in the coverage of the current table"
                      [] s.c.kind = "moc" -> "positions lie in the coverage map"
                      [] s.c.kind = "sphere" -> "")
  ELSE Pass(IF ord THEN d.s ELSE s)
Accept(s, e) ==
  CASE e.k = "draw" -> AcceptDraw(s, e)
    [] e.k \in {"reset", "filter"} -> Pass(Step(s, e).s)
    [] e.k = "stat" -> IF Sum(e.counts) = e.n /\ Even(e.n, e.counts) THEN Pass(s) ELSE Fail(s, "equally large cells are hit equally often")
    [] e.k = "spread" -> IF SpreadOK(e.n, e.inner) THEN Pass(s) ELSE Fail(s, "positions spread over the field")

\* ---------------------------------------------------------------- properties of the specification
StateInv(s) == /\ s.cur >= 0 /\ s.cur <= Len(s.c.given)
               /\ s.table \subseteq 1..s.c.n
TInv(s) == StateInv(s)
StepInv(s, op, out, s2) ==
  /\ s2.table \subseteq s.table
  /\ out.r = "ok" /\ op.k = "draw" => Len(out.rows) = op.num /\ s2.cur = s.cur + op.num
  /\ out.r # "ok" => s2 = s
  /\ op.k = "filter" => s2.cur = s.cur       \* the sampler keeps the rows that it was made with

MCConfigs == {[kind |-> "rows", n |-> n, order |-> TRUE, given |-> [i \in 1..n |-> i], exact |-> x, cells |-> <<>>, depth |-> 2, deep |-> 2] :
                n \in MCLens, x \in BOOLEAN}
MCOps(s) == {[k |-> "draw", num |-> n] : n \in MCNums} \cup {[k |-> "reset"]}
            \cup {[k |-> "filter", keep |-> q] : q \in {<<1>>, [i \in 1..(s.c.n - 1) |-> i + 1]}}
====
