---- MODULE Samplers ----
(***************************************************************************
 The samplers of given values: what every draw may deliver after any history
 of draws and resets.

 cfg: kind  "list"   values in order
            "tord"   table rows in order
            "trand"  random table rows
            "value"  random values, w = integer weights (all 1: uniform)
            "select" the value chosen by an index; idx = the indices delivered one after the other
            "binary" TRUE (1) or FALSE (0); w = <<weight of 0, weight of 1>>
            "dist"   a density w on a grid of points
      rows  Seq(Seq(value id)): the given rows (one column for anything but tables)
 State: cfg and cur, the number of rows (or indices) delivered since the last reset.

 Event: [k |-> "draw", num, r, rows] with rows = Seq(Seq(value id)), one per sample
        [k |-> "reset"], [k |-> "mutate"] (the caller overwrites the data that it passed in)
        [k |-> "stat", n, counts]  (counts of each value in n draws)
 ***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MCLens, MCNums

InitState(c) == [c |-> c, cur |-> 0]
TInit(c) == InitState(c)
Obs(s) == [left |-> Len(s.c.rows) - s.cur]
Ordered(s) == s.c.kind \in {"list", "tord"}

\* ---------------------------------------------------------------- deterministic part
Enough(s, num) == s.cur + num <= (IF s.c.kind = "select" THEN Len(s.c.idx) ELSE Len(s.c.rows))
Delivered(s, num) ==
  IF Ordered(s) THEN [i \in 1..num |-> s.c.rows[s.cur + i]]
  ELSE [i \in 1..num |-> s.c.rows[s.c.idx[s.cur + i] + 1]]
InBounds(s, num) == \A i \in 1..num : s.c.idx[s.cur + i] \in 0..(Len(s.c.rows) - 1)
DrawDet(s, num) ==
  IF ~Enough(s, num) THEN [s |-> s, out |-> [r |-> "IndexError"]]
  ELSE IF s.c.kind = "select" /\ ~InBounds(s, num) THEN [s |-> [s EXCEPT !.cur = @ + num], out |-> [r |-> "IndexError"]]
  ELSE [s |-> [s EXCEPT !.cur = @ + num], out |-> [r |-> "ok", rows |-> Delivered(s, num)]]
Step(s, op) ==
  CASE op.k = "draw" -> DrawDet(s, op.num)
    [] op.k = "reset" -> [s |-> [s EXCEPT !.cur = 0], out |-> [r |-> "ok"]]
    [] op.k = "mutate" -> [s |-> s, out |-> [r |-> "ok"]]

\* ---------------------------------------------------------------- random part
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
MayDeliver(s, row) ==
  CASE s.c.kind = "trand" -> \E k \in 1..Len(s.c.rows) : s.c.rows[k] = row
    [] s.c.kind = "value" -> \E k \in 1..Len(s.c.rows) : s.c.rows[k] = row /\ s.c.w[k] > 0
    [] s.c.kind = "binary" -> row \in {<<0>>, <<1>>} /\ s.c.w[row[1] + 1] > 0
    [] s.c.kind = "dist" -> row[1] \in 1..(2 * Len(s.c.w) - 1)   \* on a grid point or between two of them
(* Six standard deviations around the expected count *)
CountOK(n, count, w, tot) == LET d == count * tot - n * w IN d * d <= 36 * n * w * (tot - w) + tot * tot
RECURSIVE Prefix(_, _)
Prefix(q, k) == IF k = 0 THEN 0 ELSE q[k] + Prefix(q, k - 1)
Accept(s, e) ==
  IF e.k \in {"reset", "mutate"} THEN [ok |-> TRUE, clause |-> "", s |-> Step(s, e).s]
  ELSE IF e.k = "stat"
  THEN \* "dist": counts[k] draws are at most the k-th grid point; otherwise counts[k] draws are the k-th value
       LET good == \A k \in 1..Len(s.c.w) :
             CountOK(e.n, e.counts[k], IF s.c.kind = "dist" THEN Prefix(s.c.w, k) ELSE s.c.w[k], Sum(s.c.w)) IN
       [ok |-> good, clause |-> "frequencies do not follow the weights", s |-> s]
  ELSE IF Ordered(s) \/ s.c.kind = "select"
  THEN LET r == DrawDet(s, e.num) IN
       IF e.r # r.out.r THEN [ok |-> FALSE, clause |-> "an ordered draw raises exactly when too few values remain", s |-> s]
       ELSE IF e.r = "ok" /\ e.rows # r.out.rows THEN [ok |-> FALSE, clause |-> "an ordered draw delivers the next values", s |-> s]
       ELSE [ok |-> TRUE, clause |-> "", s |-> r.s]
  ELSE IF e.r # "ok" THEN [ok |-> FALSE, clause |-> "a random draw never fails", s |-> s]
  ELSE IF Len(e.rows) # e.num THEN [ok |-> FALSE, clause |-> "number of samples", s |-> s]
  ELSE IF \E i \in 1..e.num : ~MayDeliver(s, e.rows[i]) THEN [ok |-> FALSE, clause |-> "only given rows of positive weight are drawn", s |-> s]
  ELSE [ok |-> TRUE, clause |-> "", s |-> s]

\* ---------------------------------------------------------------- properties of the specification
StateInv(s) == s.cur >= 0 /\ (Ordered(s) => s.cur <= Len(s.c.rows))
TInv(s) == StateInv(s)
StepInv(s, op, out, s2) ==
  /\ out.r = "ok" /\ op.k = "draw" => Len(out.rows) = op.num
  /\ out.r # "ok" /\ Ordered(s) => s2 = s

MCConfigs == {[kind |-> kind, rows |-> [i \in 1..n |-> IF kind = "tord" THEN <<i, 100 + i>> ELSE <<i>>], w |-> <<>>, idx |-> <<>>] :
                kind \in {"list", "tord"}, n \in MCLens}
MCOps(s) == {[k |-> "draw", num |-> n] : n \in MCNums} \cup {[k |-> "reset"]}
====
