---- MODULE Survey ----
(***************************************************************************
 An observation table: its rows and columns under any history of edits, and
 the answer to every spatial and temporal query.

 Positions are integer vectors (directions on the sphere), so angular
 comparisons are exact: the angle between u and v is at most the radius r
 with cos^2 r = p/q  iff  (u.v) >= 0 and (u.v)^2 q >= p |u|^2 |v|^2  (r <= 90).
 A comparison that ends in equality is not decided by floating point, so such
 rows are reported as "may".

 A pointing has the direction c, the integer direction e of its local east
 (|c| and |e| integers) and a rotation with cos = rc/5, sin = rs/5: the upward axis
 of the detector has this position angle.  A footprint is a rectangle
 [x0, x1] x [y0, y1] / b in the tangent plane of the pointing.

 State: n       number of rows
        col     column name -> sequence of values
        pos     the directions [c, e, lc = |c|, le = |e|], rot the rotations [c, s] of the rows
        alias   other names of columns: Seq(<<other name, standard name>>)
        rad     <<>> or the default radius <<p, q, wide>> (wide: more than 90 degrees)
        fp      <<>> or <<x0, x1, y0, y1, b>>
 ***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MCRows

Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Cross(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x > 0 THEN 1 ELSE IF x = 0 THEN 0 ELSE -1
And(a, b) == IF a < b THEN a ELSE b    \* of -1 (outside), 0 (edge), 1 (inside)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Seqify(S) == LET RECURSIVE F(_)
                 F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o F(T \ {x}) IN F(S)

\* ---------------------------------------------------------------- geometry: 1 inside, 0 on the edge, -1 outside
InRadius(u, v, r) ==
  LET d == Dot(u, v)
      cmp == Sgn(d * d * r[2] - r[1] * Dot(u, u) * Dot(v, v)) IN
  IF ~r[3] THEN (IF d > 0 THEN cmp ELSE IF d = 0 /\ r[1] = 0 THEN 0 ELSE -1)
  ELSE (IF d >= 0 THEN 1 ELSE -cmp)
InTime(t, lo, hi) == IF (lo = <<>> \/ lo[1] <= t) /\ (hi = <<>> \/ t <= hi[1]) THEN 1 ELSE -1
InFootprint(v, p, rot, fp) ==
  LET vc == Dot(v, p.c)
      east == p.lc * Dot(v, p.e)
      north == Dot(v, Cross(p.c, p.e))
      x == (rot.c * east - rot.s * north) * fp[5]
      y == (rot.c * north + rot.s * east) * fp[5]
      d == 5 * p.le * vc
      edge(a, lo, hi) == And(Sgn(a - lo * d), Sgn(hi * d - a)) IN
  IF vc <= 0 THEN -1 ELSE And(edge(x, fp[1], fp[2]), edge(y, fp[3], fp[4]))
(* The direction v in the axes of a detector: towards its centre, right and up (not normalised) *)
Offset(v, p, rot) ==
  LET east == p.lc * Dot(v, p.e)
      north == Dot(v, Cross(p.c, p.e)) IN
  <<5 * p.le * Dot(v, p.c), rot.c * east - rot.s * north, rot.c * north + rot.s * east>>
Sees(s, i, v, r, lo, hi) ==
  And(And(InRadius(s.pos[i].c, v, r), InTime(s.col.time[i], lo, hi)),
      IF s.fp = <<>> THEN 1 ELSE InFootprint(v, s.pos[i], s.rot[i], s.fp))
\* Row indices are positions, counted from 0.
Must(s, v, r, lo, hi) == {i - 1 : i \in {j \in 1..s.n : Sees(s, j, v, r, lo, hi) = 1}}
May(s, v, r, lo, hi) == {i - 1 : i \in {j \in 1..s.n : Sees(s, j, v, r, lo, hi) = 0}}

\* ---------------------------------------------------------------- actions
InitState(c) == [n |-> c.n, col |-> c.col, pos |-> c.pos, rot |-> c.rot, alias |-> c.alias, rad |-> c.rad, fp |-> c.fp]
Res(s, out) == [s |-> s, out |-> out]
Err(s, e) == Res(s, [r |-> e])
Ok(s) == Res(s, [r |-> "ok"])
HasAlias(s, nm) == \E k \in 1..Len(s.alias) : s.alias[k][1] = nm /\ s.alias[k][2] \in DOMAIN s.col
Has(s, nm) == nm \in DOMAIN s.col \/ HasAlias(s, nm)
Std(s, nm) == IF nm \in DOMAIN s.col THEN nm ELSE s.alias[CHOOSE k \in 1..Len(s.alias) : s.alias[k][1] = nm][2]
Values(s, nm) == s.col[Std(s, nm)]
RECURSIVE Pick(_, _, _)
Pick(q, keep, k) == IF k > Len(q) THEN <<>> ELSE (IF k \in keep THEN <<q[k]>> ELSE <<>>) \o Pick(q, keep, k + 1)

FilterAct(s, op) ==
  IF op.t = "mask" /\ Len(op.v) # s.n THEN Err(s, "ValueError")
  ELSE IF op.t = "idx" /\ \E k \in 1..Len(op.v) : op.v[k] >= s.n THEN Err(s, "IndexError")
  ELSE LET keep == IF op.t = "mask" THEN {i \in 1..s.n : op.v[i] = 1} ELSE {op.v[k] + 1 : k \in 1..Len(op.v)} IN
       Ok([s EXCEPT !.n = Cardinality(keep), !.pos = Pick(@, keep, 1), !.rot = Pick(@, keep, 1),
                    !.col = [c \in DOMAIN s.col |-> Pick(s.col[c], keep, 1)]])
Put(f, nm, q) == [x \in DOMAIN f \cup {nm} |-> IF x = nm THEN q ELSE f[x]]
AddAct(s, op) ==
  IF op.name \in DOMAIN s.col /\ ~op.ow THEN Err(s, "KeyError")
  ELSE IF ~op.scalar /\ Len(op.vals) # s.n THEN Err(s, "ValueError")
  ELSE Ok([s EXCEPT !.col = Put(@, op.name, IF op.scalar THEN [i \in 1..s.n |-> op.vals[1]] ELSE op.vals)])
(* New pointings: both position columns are overwritten *)
MoveAct(s, op) == IF Len(op.pos) # s.n THEN Err(s, "ValueError") ELSE Ok([s EXCEPT !.pos = op.pos])
GetAct(s, op) == IF Has(s, op.name) THEN Res(s, [r |-> "vals", has |-> TRUE, vals |-> Values(s, op.name)])
                 ELSE Res(s, [r |-> "KeyError", has |-> FALSE])
Set(q) == {q[k] : k \in 1..Len(q)}
InfoAct(s, op) ==
  Res(s, [r |-> "info", n |-> s.n, cols |-> Seqify(DOMAIN s.col), filters |-> Sorted(Set(s.col.filter)),
          times |-> IF s.n = 0 THEN <<>> ELSE <<Sorted(Set(s.col.time))[1], Sorted(Set(s.col.time))[Cardinality(Set(s.col.time))]>>,
          rad |-> s.rad])
Radius(s, op) == IF op.rad = <<>> THEN s.rad ELSE op.rad
BadBounds(op, b) == Len(b) > 1 /\ Len(b) # Len(op.q)
Bound(b, k) == IF b = <<>> THEN <<>> ELSE IF Len(b) = 1 THEN b ELSE <<b[k]>>
SearchAct(s, op) ==
  IF Radius(s, op) = <<>> \/ BadBounds(op, op.lo) \/ BadBounds(op, op.hi) THEN Err(s, "ValueError")
  ELSE Res(s, [r |-> "rows",
               must |-> [k \in 1..Len(op.q) |-> Sorted(Must(s, op.q[k], Radius(s, op), Bound(op.lo, k), Bound(op.hi, k)))],
               may |-> [k \in 1..Len(op.q) |-> Sorted(May(s, op.q[k], Radius(s, op), Bound(op.lo, k), Bound(op.hi, k)))]])
ObsAct(s, op) ==
  IF Radius(s, op) = <<>> THEN Err(s, "ValueError")
  ELSE IF \E k \in 1..Len(op.cols) : ~Has(s, op.cols[k]) THEN Err(s, "KeyError")
  ELSE LET must == Sorted(Must(s, op.q[1], Radius(s, op), op.lo, op.hi))
           may == Sorted(May(s, op.q[1], Radius(s, op), op.lo, op.hi))
           rows(ids) == [i \in 1..Len(ids) |-> [k \in 1..Len(op.cols) |-> Values(s, op.cols[k])[ids[i] + 1]]] IN
       Res(s, [r |-> "table", must |-> rows(must), may |-> rows(may)])
(* A coverage map contains every place within the radius of a pointing, and none much farther away *)
Wider(r) == CASE r[2] = 1000 -> <<99, 100, FALSE>> [] r[2] = 100 -> <<95, 100, FALSE>> [] r = <<9, 10, FALSE>> -> <<8, 10, FALSE>>
              [] r = <<3, 4, FALSE>> -> <<7, 10, FALSE>> [] r = <<1, 2, FALSE>> -> <<2, 5, FALSE>> [] OTHER -> <<0, 1, FALSE>>
MocAct(s, op) ==
  IF Radius(s, op) = <<>> THEN Err(s, "ValueError")
  ELSE Res(s, [r |-> "cover", must |-> [k \in 1..Len(op.q) |-> \E i \in 1..s.n : InRadius(s.pos[i].c, op.q[k], Radius(s, op)) = 1],
                              may |-> [k \in 1..Len(op.q) |-> \E i \in 1..s.n : InRadius(s.pos[i].c, op.q[k], Wider(Radius(s, op))) >= 0]])
(* The footprint itself: a point per pointing, or all points for one pointing *)
One(q, k) == IF Len(q) = 1 THEN q[1] ELSE q[k]
DetectAct(s, op) ==
  IF s.fp = <<>> THEN Err(s, "none")
  ELSE IF ~({Len(op.p), Len(op.rot)} \subseteq {1, Len(op.q)}) THEN Err(s, "ValueError")
  ELSE Res(s, [r |-> "inside", v |-> [k \in 1..Len(op.q) |-> InFootprint(op.q[k], One(op.p, k), One(op.rot, k), s.fp)],
               off |-> [k \in 1..Len(op.q) |-> Offset(op.q[k], One(op.p, k), One(op.rot, k))]])
(* A footprint needs a scale (or a projection) and surrounds the centre of the detector *)
MakeAct(s, op) == IF (op.scale <= 0 /\ ~op.wcs) \/ op.fp[1] > 0 \/ op.fp[2] < 0 \/ op.fp[3] > 0 \/ op.fp[4] < 0 THEN Err(s, "ValueError") ELSE Ok(s)
RadAct(s, op) == Ok([s EXCEPT !.rad = op.rad])
ClearAct(s, op) == Ok([s EXCEPT !.fp = <<>>])
TripAct(s, op) ==  \* written to a file and read back
  Ok([s EXCEPT !.alias = <<>>, !.fp = <<>>, !.rad = IF op.how = "db" THEN <<>> ELSE @])
Step(s, op) ==
  CASE op.k = "filter" -> FilterAct(s, op)
    [] op.k = "add" -> AddAct(s, op)
    [] op.k = "move" -> MoveAct(s, op)
    [] op.k = "get" -> GetAct(s, op)
    [] op.k = "info" -> InfoAct(s, op)
    [] op.k = "search" -> SearchAct(s, op)
    [] op.k = "seen" -> SearchAct(s, op)
    [] op.k = "obs" -> ObsAct(s, op)
    [] op.k = "moc" -> MocAct(s, op)
    [] op.k = "detect" -> DetectAct(s, op)
    [] op.k = "make" -> MakeAct(s, op)
    [] op.k = "radius" -> RadAct(s, op)
    [] op.k = "clear" -> ClearAct(s, op)
    [] op.k = "trip" -> TripAct(s, op)
    [] op.k = "mutate" -> Ok(s)
Obs(s) == [n |-> s.n, id |-> s.col.id]

\* ---------------------------------------------------------------- properties of the specification
StateInv(s) ==
  /\ Len(s.pos) = s.n /\ Len(s.rot) = s.n
  /\ \A c \in DOMAIN s.col : Len(s.col[c]) = s.n
  /\ {"time", "filter", "id"} \subseteq DOMAIN s.col
  /\ \A i \in 1..s.n : /\ s.pos[i].lc * s.pos[i].lc = Dot(s.pos[i].c, s.pos[i].c)
                       /\ s.pos[i].le * s.pos[i].le = Dot(s.pos[i].e, s.pos[i].e)
                       /\ Dot(s.pos[i].c, s.pos[i].e) = 0
                       /\ s.rot[i].c * s.rot[i].c + s.rot[i].s * s.rot[i].s = 25
IsSubSeq(q, r) == \E S \in SUBSET (1..Len(r)) : q = Pick(r, S, 1)
StepInv(s, op, out, s2) ==
  /\ out.r \notin {"ok"} => s2 = s
  /\ op.k = "filter" /\ out.r = "ok" /\ s.n < 6 => \A c \in DOMAIN s.col : IsSubSeq(s2.col[c], s.col[c])
  \* what is within the radius is covered, and a footprint contains its pointing
  /\ out.r = "cover" => \A k \in 1..Len(op.q) : out.must[k] => out.may[k]
  /\ out.r = "inside" => \A k \in 1..Len(op.q) : op.q[k] = One(op.p, k).c => out.v[k] = 1
  /\ op.k \in {"search", "seen"} /\ out.r = "rows" =>
       \A k \in 1..Len(op.q) : \A i \in 1..Len(out.must[k]) :
         /\ out.must[k][i] \in 0..(s.n - 1)
         /\ InRadius(s.pos[out.must[k][i] + 1].c, op.q[k], Radius(s, op)) >= 0
         /\ op.lo # <<>> => Bound(op.lo, k)[1] <= s.col.time[out.must[k][i] + 1]
         /\ op.hi # <<>> => Bound(op.hi, k)[1] >= s.col.time[out.must[k][i] + 1]

\* ---------------------------------------------------------------- small-scope exploration
Ptg == <<[c |-> <<3, 4, 12>>, e |-> <<-4, 3, 0>>, lc |-> 13, le |-> 5], [c |-> <<0, 0, 1>>, e |-> <<0, 1, 0>>, lc |-> 1, le |-> 1],
         [c |-> <<1, 0, 0>>, e |-> <<0, 1, 0>>, lc |-> 1, le |-> 1], [c |-> <<3, 4, 12>>, e |-> <<-4, 3, 0>>, lc |-> 13, le |-> 5]>>
MCConfigs == {[n |-> n, pos |-> SubSeq(Ptg, 1, n), rot |-> [i \in 1..n |-> IF i % 2 = 0 THEN [c |-> 5, s |-> 0] ELSE [c |-> 4, s |-> 3]],
               col |-> [time |-> [i \in 1..n |-> (5 * i) % 7], filter |-> [i \in 1..n |-> 1 + (i % 2)], id |-> [i \in 1..n |-> 10 + i]],
               alias |-> <<<<"mjd_obs", "time">>>>, rad |-> <<99, 100, FALSE>>, fp |-> fp] : n \in MCRows, fp \in {<<>>, <<-1, 2, -4, 3, 40>>}}
Masks(n) == [1..n -> {0, 1}]
MCOps(s) ==
  {[k |-> "filter", t |-> "mask", v |-> m] : m \in Masks(s.n)}
  \cup {[k |-> "filter", t |-> "idx", v |-> v] : v \in {<<>>, <<0>>, <<s.n>>, <<1, 0>>}}
  \cup {[k |-> "filter", t |-> "mask", v |-> <<1>>]}
  \cup {[k |-> "add", name |-> nm, vals |-> [i \in 1..s.n |-> 5 - i], scalar |-> FALSE, ow |-> ow] : nm \in {"a", "time", "filter"}, ow \in {TRUE, FALSE}}
  \cup {[k |-> "search", q |-> <<<<3, 4, 12>>, <<1, 0, 12>>>>, rad |-> <<>>, lo |-> lo, hi |-> hi] : lo \in {<<>>, <<3>>}, hi \in {<<>>, <<4, 5>>}}
  \cup {[k |-> "moc", q |-> <<<<3, 4, 12>>, <<0, 1, 12>>, <<-1, 0, 0>>>>, rad |-> r] : r \in {<<>>, <<999, 1000, FALSE>>}}
  \cup {[k |-> "detect", q |-> <<<<60, 80, 240>>, <<61, 79, 241>>, <<55, 82, 240>>>>, p |-> p, rot |-> rot]
           : p \in {SubSeq(Ptg, 1, 1), <<Ptg[1], Ptg[4], Ptg[1]>>}, rot \in {<<[c |-> 4, s |-> 3]>>, <<[c |-> 0, s |-> 5], [c |-> 3, s |-> -4]>>}}
  \cup {[k |-> "info"], [k |-> "get", name |-> "mjd_obs"], [k |-> "get", name |-> "a"]}
  \cup {[k |-> "obs", q |-> <<<<3, 4, 12>>>>, rad |-> <<1, 2, FALSE>>, lo |-> <<>>, hi |-> <<>>, cols |-> <<"id", "mjd_obs">>]}
====
