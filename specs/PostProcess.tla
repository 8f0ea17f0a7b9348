---- MODULE PostProcess ----
(***************************************************************************
 Post-processing of simulated light curves: columns computed from the flux and its
 error, dropping of objects without observations, on frames that are filtered,
 re-ordered and processed again.

 A flux is <<>> (missing) or <<s, a, k>> for s * 2^a * 10^k (s in {-1, 0, 1}); an error is
 <<>> or an integer. A fraction is <<n, d>>. A magnitude is <<c, a>> for c / 10 - 2.5 a log10(2).
 cfg:   objs  Seq([id, t0: <<>> or <<t>>, rows: Seq([m, f, e])]), col: whether there is a t0 column
 State: fs: Seq(frame); frame: [objs: Seq([id, t0, rows: Seq([m, f, e, x])]), col, aug, rel]
        x: the computed columns [snr, mag, magerr (<<>> when not valid), det, rel]
 ***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Fr(n, d) == LET g == Gcd(n, d) IN <<n \div g, d \div g>>
Num(f) == f[1] * Pow(2, f[2]) * Pow(10, f[3])
None == [snr |-> <<>>, mag |-> <<>>, magerr |-> <<>>, det |-> FALSE, rel |-> <<>>]

InitState(c) == [fs |-> <<[objs |-> [i \in 1..Len(c.objs) |-> [id |-> c.objs[i].id, t0 |-> c.objs[i].t0,
                                      rows |-> [k \in 1..Len(c.objs[i].rows) |-> [m |-> c.objs[i].rows[k].m, f |-> c.objs[i].rows[k].f, e |-> c.objs[i].rows[k].e, x |-> None]]]],
                           col |-> c.col, aug |-> FALSE, rel |-> FALSE]>>]
Res(s, out) == [s |-> s, out |-> out]

\* ---------------------------------------------------------------- columns
Valid(f, e) == f # <<>> /\ e # <<>> /\ f[1] > 0 /\ e[1] > 0
Columns(r, min) ==
  LET v == Valid(r.f, r.e) IN
  [snr |-> IF v THEN <<Fr(Num(r.f), r.e[1])>> ELSE <<>>,
   mag |-> IF v THEN <<<<314 - 25 * r.f[3], r.f[2]>>>> ELSE <<>>,
   magerr |-> IF v THEN <<Fr(r.e[1], Num(r.f))>> ELSE <<>>,       \* times 2.5 / ln 10
   det |-> v /\ Num(r.f) * min[2] >= min[1] * r.e[1]]
Row(r, min, rel) == LET c == Columns(r, min) IN
  [r EXCEPT !.x = [snr |-> c.snr, mag |-> c.mag, magerr |-> c.magerr, det |-> c.det, rel |-> rel]]
(* Times relative to the reference times if every object has one *)
Timed(g) == g.col /\ \A i \in 1..Len(g.objs) : g.objs[i].t0 # <<>>
Augment(g, min) ==
  [g EXCEPT !.aug = TRUE, !.rel = @ \/ Timed(g),
            !.objs = [i \in 1..Len(@) |-> [@[i] EXCEPT !.rows = [k \in 1..Len(@) |->
                        Row(@[k], min, IF Timed(g) THEN <<@[k].m - g.objs[i].t0[1]>> ELSE @[k].x.rel)]]]]
AugmentAct(s, op) == Res([s EXCEPT !.fs[op.on] = Augment(@, op.min)], [r |-> "ok"])
(* One light curve as a table of its own *)
SingleAct(s, op) ==
  LET o == s.fs[op.on].objs[op.obj] IN
  Res(s, [r |-> "single", rows |-> [k \in 1..Len(o.rows) |->
            Row(o.rows[k], op.min, IF op.t0 = <<>> THEN <<>> ELSE <<o.rows[k].m - op.t0[1]>>).x]])
\* ---------------------------------------------------------------- new frames
New(s, g) == Res([s EXCEPT !.fs = Append(@, g)], [r |-> "ok"])
DropAct(s, op) == New(s, [s.fs[op.on] EXCEPT !.objs = SelectSeq(@, LAMBDA o : o.rows # <<>>)])
PickAct(s, op) == LET g == s.fs[op.on] IN New(s, [g EXCEPT !.objs = [k \in 1..Len(op.rows) |-> g.objs[op.rows[k]]]])
(* Only the observations with a larger flux *)
CutAct(s, op) ==
  New(s, [s.fs[op.on] EXCEPT !.objs = [i \in 1..Len(@) |-> [@[i] EXCEPT !.rows = SelectSeq(@, LAMBDA r : r.f # <<>> /\ Num(r.f) > op.flux)]]])
(* The reference time of one object is changed *)
T0Act(s, op) == Res([s EXCEPT !.fs[op.on].objs[op.obj].t0 = op.t0], [r |-> "ok"])
Step(s, op) ==
  CASE op.k = "augment" -> AugmentAct(s, op)
    [] op.k = "single" -> SingleAct(s, op)
    [] op.k = "drop" -> DropAct(s, op)
    [] op.k = "pick" -> PickAct(s, op)
    [] op.k = "cut" -> CutAct(s, op)
    [] op.k = "t0" -> T0Act(s, op)
Obs(s) == s.fs

\* ---------------------------------------------------------------- properties of the specification
StateInv(s) ==
  \A j \in 1..Len(s.fs) : \A i \in 1..Len(s.fs[j].objs) : \A k \in 1..Len(s.fs[j].objs[i].rows) :
    LET r == s.fs[j].objs[i].rows[k] IN
    /\ ~s.fs[j].aug => r.x = None
    /\ s.fs[j].aug => /\ (r.x.snr = <<>>) = ~Valid(r.f, r.e)
                      /\ (r.x.mag = <<>>) = (r.x.snr = <<>>) /\ (r.x.magerr = <<>>) = (r.x.snr = <<>>)
                      /\ r.x.det => Valid(r.f, r.e)
                      /\ Valid(r.f, r.e) => r.x.snr[1][1] * r.x.magerr[1][1] = r.x.snr[1][2] * r.x.magerr[1][2]
Frame(g) == [i \in 1..Len(g.objs) |-> [id |-> g.objs[i].id, t0 |-> g.objs[i].t0,
              rows |-> [k \in 1..Len(g.objs[i].rows) |-> <<g.objs[i].rows[k].m, g.objs[i].rows[k].f, g.objs[i].rows[k].e>>]]]
StepInv(s, op, out, s2) ==
  \* no operation but a change of a reference time changes given data; other frames are never touched
  /\ \A j \in 1..Len(s.fs) : IF j = op.on /\ op.k = "t0" THEN TRUE
                             ELSE IF j = op.on THEN Frame(s2.fs[j]) = Frame(s.fs[j]) ELSE s2.fs[j] = s.fs[j]
  \* processing twice gives the same as once
  /\ op.k = "augment" => AugmentAct(s2, op).s = s2
  /\ op.k = "drop" => LET g == s2.fs[Len(s2.fs)] IN
       /\ \A i \in 1..Len(g.objs) : g.objs[i].rows # <<>>
       /\ Len(g.objs) = Cardinality({i \in 1..Len(s.fs[op.on].objs) : s.fs[op.on].objs[i].rows # <<>>})
  \* a lower threshold detects no less
  /\ op.k = "augment" => \A i \in 1..Len(s2.fs[op.on].objs) : \A k \in 1..Len(s2.fs[op.on].objs[i].rows) :
       s2.fs[op.on].objs[i].rows[k].x.det => Augment(s.fs[op.on], <<op.min[1] - 1, op.min[2]>>).objs[i].rows[k].x.det

\* ---------------------------------------------------------------- finite instance
R(m, f, e) == [m |-> m, f |-> f, e |-> e]
O(id, t0, rows) == [id |-> id, t0 |-> t0, rows |-> rows]
Full == <<R(3, <<1, 1, 0>>, <<1>>), R(5, <<1, 0, 1>>, <<2>>), R(9, <<-1, 2, 0>>, <<1>>)>>
Odd == <<R(4, <<0, 0, 0>>, <<1>>), R(4, <<1, 2, 0>>, <<0>>), R(6, <<>>, <<1>>), R(7, <<1, 0, 0>>, <<>>)>>
MCConfigs ==
  {[objs |-> <<O(0, a, Full), O(1, <<2>>, <<>>), O(2, b, Odd)>>, col |-> col] : a \in {<<1>>}, b \in {<<>>, <<5>>}, col \in BOOLEAN}
  \cup {[objs |-> <<O(0, <<1>>, <<>>), O(1, <<2>>, <<>>)>>, col |-> TRUE], [objs |-> <<O(0, <<1>>, Full)>>, col |-> TRUE],
        [objs |-> <<O(0, <<1>>, <<>>), O(1, <<2>>, Full), O(2, <<0>>, <<R(1, <<1, 0, 0>>, <<4>>)>>)>>, col |-> TRUE]}
MCOps(s) ==
  LET F == 1..Len(s.fs) IN
  {[k |-> "augment", on |-> j, min |-> min] : j \in F, min \in {<<2, 1>>, <<0, 1>>}}
  \cup {[k |-> "single", on |-> j, obj |-> 1, min |-> <<5, 1>>, t0 |-> <<3>>] : j \in {x \in F : s.fs[x].objs # <<>> /\ s.fs[x].objs[1].rows # <<>>}}
  \cup {[k |-> "t0", on |-> j, obj |-> 1, t0 |-> t] : j \in {x \in F : s.fs[x].objs # <<>> /\ s.fs[x].col}, t \in {<<>>, <<7>>}}
  \cup IF Len(s.fs) > 2 THEN {}
       ELSE {[k |-> "drop", on |-> j] : j \in F}
            \cup {[k |-> "cut", on |-> j, flux |-> 2] : j \in F}
            \cup {[k |-> "pick", on |-> j, rows |-> <<2, 1>>] : j \in {x \in F : Len(s.fs[x].objs) > 1}}
====
