---- MODULE ParamGraph ----
(***************************************************************************
 The parameter graph: nodes with parameters whose values come from constants,
 from parameters of other (or earlier parameters of the same) nodes, or from
 function nodes, and everything the graph can be asked: sampling with or
 without overrides, the dependency report, the gradient tree, edits.

 State: [nodes |-> Seq(node)], a node being
   kind   "param" (parameter node), "func" (function of its parameters),
          "list" (a source that delivers its values in order), "model" (a physical
          model) or "group" (a model composed of other models)
   mem    the members of a group
   label  "" or the label given by the user
   pars   Seq([name, t, v, n, p, ag]): t = "const" (value v), "call" (a plain
          callable that returns v) or "ref" (output or parameter p of node n);
          ag: may a gradient be taken at this parameter
   outs   names of the outputs ("func", "list")
   vals, cur   the values of a "list" and how many were delivered already

 A "func" node's j-th output is  (SUM_k (k + j) * arg_k + j) % 97.
 ***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxNodes, MCSamples

Node(s, n) == s.nodes[n]
PIdx(nd, name) == CHOOSE k \in 1..Len(nd.pars) : nd.pars[k].name = name
HasPar(nd, name) == \E k \in 1..Len(nd.pars) : nd.pars[k].name = name
OutIdx(nd, name) == CHOOSE k \in 1..Len(nd.outs) : nd.outs[k] = name
HasOut(nd, name) == \E k \in 1..Len(nd.outs) : nd.outs[k] = name
Refs(nd) == {nd.mem[k] : k \in 1..Len(nd.mem)} \cup {nd.pars[k].n : k \in {j \in 1..Len(nd.pars) : nd.pars[j].t = "ref"}}
Models == {"model", "group"}
RECURSIVE ReachFrom(_, _, _)
ReachFrom(s, todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET n == CHOOSE x \in todo : TRUE
           new == Refs(Node(s, n)) \ (seen \cup {n}) IN
       ReachFrom(s, (todo \ {n}) \cup new, seen \cup {n})
Reach(s, root) == ReachFrom(s, {root}, {})

\* ---------------------------------------------------------------- values of one sampling run
(* over: Seq([n, p, vals]) -- the overridden parameters.  Value of parameter or output p of node n in sample i *)
IsOver(over, n, p) == \E k \in 1..Len(over) : over[k].n = n /\ over[k].p = p
OverVal(over, n, p, i) == over[CHOOSE k \in 1..Len(over) : over[k].n = n /\ over[k].p = p].vals[i]
RECURSIVE Val(_, _, _, _, _), Weighted(_, _, _, _, _, _)
Val(s, over, n, p, i) ==
  LET nd == Node(s, n) IN
  IF IsOver(over, n, p) THEN OverVal(over, n, p, i)
  ELSE IF HasPar(nd, p)
       THEN LET par == nd.pars[PIdx(nd, p)] IN
            IF par.t \in {"const", "call"} THEN par.v ELSE Val(s, over, par.n, par.p, i)
       ELSE IF nd.kind = "list" THEN nd.vals[nd.cur + i]
            ELSE LET j == OutIdx(nd, p) IN (Weighted(s, over, n, j, i, Len(nd.pars)) + j) % 97
Weighted(s, over, n, j, i, k) ==
  IF k = 0 THEN 0
  ELSE (k + j) * Val(s, over, n, Node(s, n).pars[k].name, i) + Weighted(s, over, n, j, i, k - 1)

Names(nd) == [k \in 1..(Len(nd.pars) + Len(nd.outs)) |-> IF k <= Len(nd.pars) THEN nd.pars[k].name ELSE nd.outs[k - Len(nd.pars)]]
NodeVals(s, over, n, num) ==
  LET nd == Node(s, n) nm == Names(nd) IN
  [n |-> n, calls |-> IF nd.kind = "func" THEN 1 ELSE 0,
   pars |-> [k \in 1..Len(nm) |-> [name |-> nm[k], vals |-> [i \in 1..num |-> Val(s, over, n, nm[k], i)]]]]
RECURSIVE Seqify(_, _)
Seqify(S, lo) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Seqify(S \ {m}, m)
Clash(s, R) == \E a, b \in R : a # b /\ Node(s, a).label # "" /\ Node(s, a).label = Node(s, b).label
Exhausted(s, R, num) == \E n \in R : Node(s, n).kind = "list" /\ Node(s, n).cur + num > Len(Node(s, n).vals)
Advance(s, R, num) == [s EXCEPT !.nodes = [n \in 1..Len(s.nodes) |->
    IF n \in R /\ s.nodes[n].kind = "list" THEN [s.nodes[n] EXCEPT !.cur = @ + num] ELSE s.nodes[n]]]

\* ---------------------------------------------------------------- reports
Edges(s, R) ==
  {<<Node(s, n).pars[k].n, Node(s, n).pars[k].p, n, Node(s, n).pars[k].name>> :
      <<n, k>> \in {<<a, b>> \in R \X (1..24) : b <= Len(Node(s, a).pars) /\ Node(s, a).pars[b].t = "ref"}}
  \cup UNION {{<<n, Node(s, n).pars[k].name, n, Node(s, n).outs[j]>> : k \in 1..Len(Node(s, n).pars), j \in 1..Len(Node(s, n).outs)} :
               n \in {x \in R : Node(s, x).kind = "func"}}
Consts(s, R) == {<<n, Node(s, n).pars[k].name>> : <<n, k>> \in {<<a, b>> \in R \X (1..24) : b <= Len(Node(s, a).pars) /\ Node(s, a).pars[b].t \in {"const", "call"}}}
AllPars(s, R) == UNION {{<<n, Names(Node(s, n))[k]>> : k \in 1..Len(Names(Node(s, n)))} : n \in R}
RECURSIVE TreeFrom(_, _, _)
TreeFrom(s, todo, seen) ==  \* nodes reachable through parameters that do not themselves allow a gradient
  IF todo = {} THEN seen
  ELSE LET n == CHOOSE x \in todo : TRUE
           nd == Node(s, n)
           new == ({nd.mem[k] : k \in 1..Len(nd.mem)} \cup {nd.pars[k].n : k \in {j \in 1..Len(nd.pars) : nd.pars[j].t = "ref" /\ ~nd.pars[j].ag}}) \ (seen \cup {n}) IN
       TreeFrom(s, (todo \ {n}) \cup new, seen \cup {n})
Tree(s, root) == UNION {{<<n, Node(s, n).pars[k].name>> : k \in {j \in 1..Len(Node(s, n).pars) : Node(s, n).pars[j].ag}} :
                        n \in TreeFrom(s, {root}, {})}
Set2Seq(S) == LET RECURSIVE F(_)
                  F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o F(T \ {x}) IN F(S)

\* ---------------------------------------------------------------- actions
Par(name, src) == [name |-> name, t |-> src.t, v |-> src.v, n |-> src.n, p |-> src.p, ag |-> src.t = "const"]
Err(s, name) == [s |-> s, out |-> [r |-> name]]
Ok(s) == [s |-> s, out |-> [r |-> "ok"]]
(* The specified outcome of giving parameter `name` of node n the source src *)
SrcError(s, n, name, src) ==
  CASE src.t = "self" -> "ValueError"          \* recursive assignment of the node to its own parameter
    [] src.t = "method" -> "ValueError"        \* a method of a node that is not a parameter
    [] src.t = "same" /\ ~HasPar(Node(s, src.n), name) /\ ~HasOut(Node(s, src.n), name) -> "ValueError"
    [] OTHER -> ""
Resolve(name, src) == IF src.t = "same" THEN [src EXCEPT !.t = "ref", !.p = name] ELSE src
\* The position, redshift and distance of a model are not open to gradients.
NoGrad == {"ra", "dec", "redshift", "distance"}
MkAct(s, op) ==
  Ok([s EXCEPT !.nodes = Append(@, [kind |-> op.kind, label |-> op.label, vals |-> op.vals, cur |-> 0, outs |-> op.outs, mem |-> op.mem,
        pars |-> [k \in 1..Len(op.pars) |->
                    LET par == Par(op.pars[k].name, Resolve(op.pars[k].name, op.pars[k].src)) IN
                    [par EXCEPT !.ag = @ /\ ~(op.kind \in Models /\ par.name \in NoGrad)]]])])
(* An effect with a parameter is added to model n: in the rest frame to every member of a group (and of its groups),
   in the observer frame to the group itself.  A model that has a parameter of that name keeps it. *)
RECURSIVE Takers(_, _, _)
Takers(s, n, rest) == LET nd == Node(s, n) IN
  IF nd.kind = "group" /\ rest THEN UNION {Takers(s, nd.mem[k], rest) : k \in 1..Len(nd.mem)} ELSE {n}
EffAct(s, op) ==
  Ok([s EXCEPT !.nodes = [n \in 1..Len(@) |->
       IF n \in Takers(s, op.n, op.rest) /\ ~HasPar(@[n], op.name)
       THEN [@[n] EXCEPT !.pars = Append(@, [Par(op.name, op.src) EXCEPT !.ag = FALSE])] ELSE @[n]]])
SetAct(s, op) ==
  LET nd == Node(s, op.n) IN
  IF ~HasPar(nd, op.name) THEN Err(s, "KeyError")
  ELSE IF SrcError(s, op.n, op.name, op.src) # "" THEN Err(s, SrcError(s, op.n, op.name, op.src))
  ELSE Ok([s EXCEPT !.nodes[op.n].pars[PIdx(nd, op.name)] = Par(op.name, Resolve(op.name, op.src))])
Reserved == {"setters", "node_label", "list_params", "sample_parameters"}
AddAct(s, op) ==
  LET nd == Node(s, op.n) IN
  IF HasPar(nd, op.name) \/ HasOut(nd, op.name) \/ op.name \in Reserved THEN Err(s, "KeyError")
  ELSE IF SrcError(s, op.n, op.name, op.src) # "" THEN Err(s, SrcError(s, op.n, op.name, op.src))
  ELSE Ok([s EXCEPT !.nodes[op.n].pars = Append(@, Par(op.name, Resolve(op.name, op.src)))])
GradAct(s, op) == Ok([s EXCEPT !.nodes[op.n].pars[PIdx(Node(s, op.n), op.name)].ag = op.b])
ResetAct(s, op) == Ok([s EXCEPT !.nodes[op.n].cur = 0])
SampleAct(s, op) ==
  LET R == Reach(s, op.root) IN
  IF Clash(s, R) /\ Exhausted(s, R, op.num) THEN Err(s, "AnyError")
  ELSE IF Clash(s, R) THEN Err(s, "ValueError")
  ELSE IF Exhausted(s, R, op.num) THEN Err(s, "IndexError")
  ELSE [s |-> Advance(s, R, op.num),
        out |-> [r |-> "state", num |-> op.num,
                 nodes |-> LET q == Seqify(R, 0) IN [k \in 1..Len(q) |-> NodeVals(s, op.over, q[k], op.num)]]]
DepAct(s, op) ==
  LET R == Reach(s, op.root) IN
  [s |-> s, out |-> [r |-> "deps", pars |-> Set2Seq(AllPars(s, R)), edges |-> Set2Seq(Edges(s, R)), consts |-> Set2Seq(Consts(s, R))]]
TreeAct(s, op) == [s |-> s, out |-> [r |-> "tree", pars |-> Set2Seq(Tree(s, op.root))]]
NamesAct(s, op) ==
  LET q == Seqify(Reach(s, op.root), 0) IN
  [s |-> s, out |-> [r |-> "names", labels |-> [k \in 1..Len(q) |-> [n |-> q[k], label |-> Node(s, q[k]).label]]]]
ParamsAct(s, op) == [s |-> s, out |-> [r |-> "params", names |-> Names(Node(s, op.n))]]

Step(s, op) ==
  CASE op.k = "mk" -> MkAct(s, op)
    [] op.k = "set" -> SetAct(s, op)
    [] op.k = "eff" -> EffAct(s, op)
    [] op.k = "add" -> AddAct(s, op)
    [] op.k = "grad" -> GradAct(s, op)
    [] op.k = "reset" -> ResetAct(s, op)
    [] op.k = "sample" -> SampleAct(s, op)
    [] op.k = "deps" -> DepAct(s, op)
    [] op.k = "tree" -> TreeAct(s, op)
    [] op.k = "names" -> NamesAct(s, op)
    [] op.k = "params" -> ParamsAct(s, op)
InitState(c) == [nodes |-> <<>>]
Obs(s) == [count |-> Len(s.nodes)]

\* ---------------------------------------------------------------- properties of the specification
(* Acyclic: references point to nodes made earlier (references into the own node go to earlier parameters). *)
StateInv(s) == \A n \in 1..Len(s.nodes) :
 (\A k \in 1..Len(s.nodes[n].mem) : s.nodes[n].mem[k] < n /\ s.nodes[s.nodes[n].mem[k]].kind \in Models) /\ \A k \in 1..Len(s.nodes[n].pars) :
  LET par == s.nodes[n].pars[k] IN
  par.t = "ref" => par.n \in 1..Len(s.nodes) /\ (HasPar(s.nodes[par.n], par.p) \/ HasOut(s.nodes[par.n], par.p))
(* In a sampled state links agree with their targets; overrides and constants have their value; a rejected call
   changes nothing; sampling only advances list cursors. *)
ValOf(out, n, p, i) ==
  LET nd == out.nodes[CHOOSE k \in 1..Len(out.nodes) : out.nodes[k].n = n] IN
  nd.pars[CHOOSE k \in 1..Len(nd.pars) : nd.pars[k].name = p].vals[i]
StepInv(s, op, out, s2) ==
  /\ (out.r \in {"ValueError", "KeyError", "IndexError", "AnyError", "deps", "tree", "names", "params"}) => s2 = s
  /\ op.k = "eff" => \A n \in 1..Len(s.nodes) : \A k \in 1..Len(s.nodes[n].pars) : s2.nodes[n].pars[k] = s.nodes[n].pars[k]
  /\ op.k = "sample" /\ out.r = "state" =>
       /\ \A n \in Reach(s, op.root) : \A k \in 1..Len(Node(s, n).pars) : \A i \in 1..op.num :
            LET par == Node(s, n).pars[k] IN
            IF IsOver(op.over, n, par.name) THEN ValOf(out, n, par.name, i) = OverVal(op.over, n, par.name, i)
            ELSE IF par.t = "ref" THEN ValOf(out, n, par.name, i) = ValOf(out, par.n, par.p, i)
            ELSE ValOf(out, n, par.name, i) = par.v
       /\ [n \in 1..Len(s.nodes) |-> s.nodes[n].pars] = [n \in 1..Len(s2.nodes) |-> s2.nodes[n].pars]

\* ---------------------------------------------------------------- small-scope exploration
C(v) == [t |-> "const", v |-> v, n |-> 0, p |-> ""]
R(n, p) == [t |-> "ref", v |-> 0, n |-> n, p |-> p]
Targets(s) == {R(n, p) : <<n, p>> \in {<<a, b>> \in (1..Len(s.nodes)) \X {"x", "y", "function_node_result"} :
                                        HasPar(s.nodes[a], b) \/ HasOut(s.nodes[a], b)}}
Sources(s) == {C(3)} \cup Targets(s)
MkOp(kind, label, pars, outs, vals) == [k |-> "mk", kind |-> kind, label |-> label, pars |-> pars, outs |-> outs, vals |-> vals, mem |-> <<>>]
FR == <<"function_node_result">>
Built(s) == Len(s.nodes)
MCConfigs == {[c |-> 0]}
MCOps(s) ==
  IF Built(s) = 0
  THEN {MkOp("list", "", <<>>, FR, <<11, 12, 13, 14>>), MkOp("param", "", <<[name |-> "x", src |-> C(5)], [name |-> "y", src |-> C(6)]>>, <<>>, <<>>)}
  ELSE
    (IF Built(s) < MaxNodes
     THEN {MkOp("param", "", <<[name |-> "x", src |-> a], [name |-> "y", src |-> b]>>, <<>>, <<>>) : a \in Sources(s), b \in Sources(s)}
          \cup {MkOp("func", "", <<[name |-> "x", src |-> a], [name |-> "y", src |-> b]>>, FR, <<>>) : a \in Targets(s), b \in Sources(s)}
     ELSE
       {[k |-> "sample", root |-> Built(s), num |-> num, over |-> over] :
           num \in MCSamples,
           over \in {<<>>}}
       \cup {[k |-> "sample", root |-> Built(s), num |-> num, over |-> <<[n |-> n, p |-> p, vals |-> [i \in 1..num |-> 80 + i]]>>] :
              num \in MCSamples, n \in Reach(s, Built(s)), p \in {"x", "function_node_result"}}
       \cup {[k |-> "deps", root |-> Built(s)], [k |-> "tree", root |-> Built(s)]}
       \cup {[k |-> "set", n |-> q[1], name |-> "x", src |-> q[2]] :
              q \in {z \in (2..Built(s)) \X Sources(s) : z[2].n < z[1]}})
====
