---- MODULE Effects ----
(***************************************************************************
 The effects of the package on models: which parameters an effect adds to which node, and which
 terms, in which order, in which frame and with which values make up an evaluated flux.

 cfg: n      number of samples
      kind   "sed", "band" or "add" (the sum of several SED models)
      zf     Seq(per part: Seq(per sample: 2 * (1 + redshift))); one part unless "add"
      own    Seq(per holder: Seq([n, v])): parameters that the model has before any effect
             (holder 1 is the model, the parts of a sum are holders 2, 3, ...)
 Effect e: t     "dim" | "ext" | "noise" | "lens"
           rest  TRUE if it applies in the rest frame (a band model knows only one frame, a lens only the observer's)
           name  its name
           law   extinction law (ext)
           pars  Seq([n, v]): parameter name, value per sample (v = <<>>: no value)
 State: c, and per holder the parameters (in order of their addition) and the two lists of effects.

 An evaluation yields per sample the terms of each part and those of the whole; a term is
   [t, law, v: Seq(values of its parameters), zf]     zf: 2 * (1 + redshift) divides the wavelength of the term's frame,
 or the first error.
 ***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MCEffects, MCKinds

NParts(c) == Len(c.zf)
NHolders(c) == IF c.kind = "add" THEN NParts(c) + 1 ELSE 1
InitState(c) == [c |-> c, pars |-> c.own, rest |-> [h \in 1..NHolders(c) |-> <<>>], obs |-> [h \in 1..NHolders(c) |-> <<>>]]

Names(q) == [k \in 1..Len(q) |-> q[k].n]
Has(q, n) == \E k \in 1..Len(q) : q[k].n = n
Get(q, n) == q[CHOOSE k \in 1..Len(q) : q[k].n = n].v
RECURSIVE Merge(_, _)
Merge(q, new) == IF new = <<>> THEN q
                 ELSE Merge(IF Has(q, new[1].n) THEN q ELSE Append(q, new[1]), Tail(new))

\* ---------------------------------------------------------------- adding an effect
\* A rest frame effect of a sum belongs to every part, any other effect to the model itself.
Holders(c, e) == IF c.kind = "add" /\ e.rest THEN 2..NHolders(c) ELSE {1}
Add(s, e) ==
  LET H == Holders(s.c, e) IN
  [s EXCEPT !.pars = [h \in 1..NHolders(s.c) |-> IF h \in H THEN Merge(s.pars[h], e.pars) ELSE s.pars[h]],
            !.rest = [h \in 1..NHolders(s.c) |-> IF h \in H /\ e.rest /\ s.c.kind # "band" THEN Append(s.rest[h], e) ELSE s.rest[h]],
            !.obs = [h \in 1..NHolders(s.c) |-> IF h \in H /\ (~e.rest \/ s.c.kind = "band") THEN Append(s.obs[h], e) ELSE s.obs[h]]]

\* ---------------------------------------------------------------- evaluation
Needs(t) == CASE t = "dim" -> <<"flux_fraction">>
              [] t = "ext" -> <<"ebv">>
              [] t = "noise" -> <<"white_noise_sigma">>
              [] t = "lens" -> <<"microlensing_t0", "u_0", "t_E">>
Value(q, n, i) == IF Has(q, n) /\ Get(q, n) # <<>> THEN Get(q, n)[i] ELSE -1     \* -1: no value
Values(q, e, i) == [k \in 1..Len(Needs(e.t)) |-> Value(q, Needs(e.t)[k], i)]
Idle(q, e, i) == e.t = "lens" /\ Value(q, "apply_microlensing", i) \in {-1, 0}
Error(s, q, e, i) == IF s.c.kind = "band" /\ e.t = "ext" THEN "NotImplementedError"
                     ELSE IF ~Idle(q, e, i) /\ \E k \in 1..Len(Needs(e.t)) : Values(q, e, i)[k] = -1 THEN "ValueError"
                     ELSE ""
Term(q, e, i, zf) == [t |-> e.t, law |-> e.law, v |-> Values(q, e, i), zf |-> zf]
RECURSIVE Terms(_, _, _, _)
Terms(q, es, i, zf) == IF es = <<>> THEN <<>>
                       ELSE (IF Idle(q, es[1], i) THEN <<>> ELSE <<Term(q, es[1], i, zf)>>) \o Terms(q, Tail(es), i, zf)
RECURSIVE Errors(_, _, _, _)
Errors(s, q, es, i) == IF es = <<>> THEN <<>>
                       ELSE (IF Error(s, q, es[1], i) = "" THEN <<>> ELSE <<Error(s, q, es[1], i)>>) \o Errors(s, q, Tail(es), i)
HolderOf(c, p) == IF c.kind = "add" THEN p + 1 ELSE 1
RECURSIVE PartErrors(_, _, _)
PartErrors(s, p, i) == IF p > NParts(s.c) THEN <<>>
                       ELSE LET h == HolderOf(s.c, p) IN Errors(s, s.pars[h], s.rest[h], i) \o PartErrors(s, p + 1, i)
SampleErrors(s, i) == PartErrors(s, 1, i) \o Errors(s, s.pars[1], s.obs[1], i)
RECURSIVE AllErrors(_, _)
AllErrors(s, i) == IF i > s.c.n THEN <<>> ELSE SampleErrors(s, i) \o AllErrors(s, i + 1)
Eval(s) ==
  IF AllErrors(s, 1) # <<>> THEN [r |-> AllErrors(s, 1)[1], samples |-> <<>>]
  ELSE [r |-> "ok",
        samples |-> [i \in 1..s.c.n |->
          [parts |-> [p \in 1..NParts(s.c) |->
             [zf |-> s.c.zf[p][i],
              terms |-> LET h == HolderOf(s.c, p) IN Terms(s.pars[h], s.rest[h], i, s.c.zf[p][i])]],
           whole |-> Terms(s.pars[1], s.obs[1], i, 2)]]]

Step(s, op) ==
  CASE op.k = "add" -> [s |-> Add(s, op.e), out |-> [r |-> "ok", samples |-> <<>>]]
    [] op.k = "eval" -> [s |-> s, out |-> Eval(s)]
\* The parameters of every holder with their sampled values, and the listed effects.
Obs(s) == [pars |-> s.pars,
           list |-> [h \in 1..NHolders(s.c) |-> [k \in 1..(Len(s.rest[h]) + Len(s.obs[h])) |->
                       IF k <= Len(s.rest[h]) THEN s.rest[h][k].name ELSE s.obs[h][k - Len(s.rest[h])].name]]]

\* ---------------------------------------------------------------- properties of the specification
Count(es, t) == Cardinality({k \in 1..Len(es) : es[k].t = t})
StateInv(s) ==
  /\ \A h \in 1..NHolders(s.c) : \A a, b \in 1..Len(s.pars[h]) : s.pars[h][a].n = s.pars[h][b].n => a = b
  /\ \A h \in 1..NHolders(s.c) : \A k \in 1..Len(s.rest[h]) : s.rest[h][k].rest /\ s.rest[h][k].t # "lens"
  /\ s.c.kind = "add" => s.rest[1] = <<>> /\ \A h \in 2..NHolders(s.c) : s.obs[h] = <<>>
StepInv(s, op, out, s2) ==
  /\ \A h \in 1..NHolders(s.c) : /\ Len(s2.pars[h]) >= Len(s.pars[h])
                                 /\ SubSeq(s2.pars[h], 1, Len(s.pars[h])) = s.pars[h]    \* no value of the model changes
                                 /\ SubSeq(s2.rest[h], 1, Len(s.rest[h])) = s.rest[h]
                                 /\ SubSeq(s2.obs[h], 1, Len(s.obs[h])) = s.obs[h]
  /\ op.k = "add" => \A h \in Holders(s.c, op.e) : \A k \in 1..Len(op.e.pars) : Has(s2.pars[h], op.e.pars[k].n)
  /\ op.k = "eval" => s2 = s
  \* every effect contributes one term to what it is applied to
  /\ op.k = "eval" /\ out.r = "ok" => \A i \in 1..s.c.n :
       /\ Count(out.samples[i].whole, "dim") = Count(s.obs[1], "dim")
       /\ \A p \in 1..NParts(s.c) : \A t \in {"dim", "ext", "noise"} :
            Count(out.samples[i].parts[p].terms, t) = Count(s.rest[HolderOf(s.c, p)], t)

MCConfigs == {[n |-> 2, kind |-> k, zf |-> IF k = "add" THEN <<<<2, 3>>, <<4, 2>>>> ELSE IF k = "band" THEN <<<<2, 2>>>> ELSE <<<<4, 3>>>>,
               own |-> [h \in 1..(IF k = "add" THEN 3 ELSE 1) |-> IF h % 2 = own THEN <<[n |-> "ebv", v |-> <<4, 4>>]>> ELSE <<>>]] :
                k \in MCKinds, own \in {0, 1}}
MCPool == <<[t |-> "dim", rest |-> TRUE, name |-> "a", law |-> "", pars |-> <<[n |-> "flux_fraction", v |-> <<1, 3>>]>>],
            [t |-> "dim", rest |-> FALSE, name |-> "b", law |-> "", pars |-> <<[n |-> "flux_fraction", v |-> <<2, 2>>], [n |-> "extra", v |-> <<7, 7>>]>>],
            [t |-> "ext", rest |-> TRUE, name |-> "c", law |-> "CCM89", pars |-> <<[n |-> "ebv", v |-> <<1, 2>>]>>],
            [t |-> "ext", rest |-> FALSE, name |-> "d", law |-> "F99", pars |-> <<[n |-> "ebv", v |-> <<3, 3>>]>>],
            [t |-> "lens", rest |-> FALSE, name |-> "e", law |-> "", pars |-> <<[n |-> "microlensing_t0", v |-> <<50, 55>>],
                [n |-> "u_0", v |-> <<1, 2>>], [n |-> "t_E", v |-> <<20, 30>>], [n |-> "apply_microlensing", v |-> <<1, 1>>]>>]>>
MCOps(s) == {[k |-> "add", e |-> MCPool[j]] : j \in MCEffects} \cup {[k |-> "eval"]}
====
