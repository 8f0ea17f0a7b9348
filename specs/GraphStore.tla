---- MODULE GraphStore ----
(***************************************************************************
 A store of GraphState objects (the sampled parameters of a model graph) and
 every operation a user can apply to them.  The state is a sequence of slots,
 each slot one GraphState object:

   n : number of samples (0: the slot is empty)
   e : sequence of entries [node, par, vals, fx]: the value of parameter `par`
       of node `node` in each of the n samples, and whether it is fixed

 Values are opaque strings (the driver maps them to Python values).
 An operation never touches any slot but its destination: copies share nothing.
 ***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

CONSTANTS NSlots, MCNodes, MCPars, MCVals, MCSizes, MCKinds

Empty == [n |-> 0, e |-> <<>>]

\* ---------------------------------------------------------------- projections of one GraphState
Has(g, nd, p) == \E k \in 1..Len(g.e) : g.e[k].node = nd /\ g.e[k].par = p
Idx(g, nd, p) == CHOOSE k \in 1..Len(g.e) : g.e[k].node = nd /\ g.e[k].par = p
HasNode(g, nd) == \E k \in 1..Len(g.e) : g.e[k].node = nd
Nodes(g) == {g.e[k].node : k \in 1..Len(g.e)}
Full(x) == x.node \o "." \o x.par

\* ---------------------------------------------------------------- set
(* value: [k |-> "sc", v |-> string] or [k |-> "arr", v |-> Seq(string)] *)
BadName(nm) == nm \in {"a.b", "x.y"}
Broadcast(g, val) == IF val.k = "sc" THEN [i \in 1..g.n |-> val.v] ELSE val.v
SetResult(g, nd, p, val, fx) ==
  IF BadName(nd) \/ BadName(p) THEN [ok |-> FALSE, g |-> g]
  ELSE IF Has(g, nd, p) /\ g.e[Idx(g, nd, p)].fx THEN [ok |-> TRUE, g |-> g]
  ELSE IF val.k = "arr" /\ Len(val.v) # g.n THEN [ok |-> FALSE, g |-> g]
  ELSE [ok |-> TRUE,
        g |-> IF Has(g, nd, p)
              THEN [g EXCEPT !.e[Idx(g, nd, p)] = [node |-> nd, par |-> p, vals |-> Broadcast(g, val), fx |-> fx]]
              ELSE [g EXCEPT !.e = Append(@, [node |-> nd, par |-> p, vals |-> Broadcast(g, val), fx |-> fx])]]

(* update with a list of [node, par, val]: one set after the other until one is rejected *)
RECURSIVE UpdateResult(_, _, _)
UpdateResult(g, items, fx) ==
  IF items = <<>> THEN [ok |-> TRUE, g |-> g]
  ELSE LET r == SetResult(g, items[1].node, items[1].par, items[1].val, fx) IN
       IF ~r.ok THEN r ELSE UpdateResult(r.g, Tail(items), fx)
AsItems(src, n) == [k \in 1..Len(src.e) |-> [node |-> src.e[k].node, par |-> src.e[k].par,
                                            val |-> IF src.n = 1 THEN [k |-> "sc", v |-> src.e[k].vals[1]]
                                                    ELSE [k |-> "arr", v |-> src.e[k].vals]]]

\* ---------------------------------------------------------------- slicing, concatenation, export
Slice(g, i) == [n |-> 1, e |-> [k \in 1..Len(g.e) |-> [g.e[k] EXCEPT !.vals = <<g.e[k].vals[i]>>]]]
Unfix(g) == [g EXCEPT !.e = [k \in 1..Len(g.e) |-> [g.e[k] EXCEPT !.fx = FALSE]]]
Keys(g) == {<<g.e[k].node, g.e[k].par>> : k \in 1..Len(g.e)}
RECURSIVE ConcatVals(_, _, _)
ConcatVals(gs, nd, p) == IF gs = <<>> THEN <<>>
                         ELSE gs[1].e[Idx(gs[1], nd, p)].vals \o ConcatVals(Tail(gs), nd, p)
RECURSIVE SumN(_)
SumN(gs) == IF gs = <<>> THEN 0 ELSE gs[1].n + SumN(Tail(gs))
Concat(gs) == [n |-> SumN(gs),
               e |-> [k \in 1..Len(gs[1].e) |->
                       [node |-> gs[1].e[k].node, par |-> gs[1].e[k].par, fx |-> FALSE,
                        vals |-> ConcatVals(gs, gs[1].e[k].node, gs[1].e[k].par)]]]
SameState(g, h) ==
  /\ g.n = h.n
  /\ Keys(g) = Keys(h)
  /\ \A k \in 1..Len(g.e) : LET j == Idx(h, g.e[k].node, g.e[k].par) IN
       g.e[k].vals = h.e[j].vals /\ g.e[k].fx = h.e[j].fx

\* ---------------------------------------------------------------- lookups
(* key: [k |-> "node", node], [k |-> "full", node, par], [k |-> "short", par], [k |-> "dots"] *)
HasKey(g, key) ==
  CASE key.k = "node" -> HasNode(g, key.node)
    [] key.k = "full" -> Has(g, key.node, key.par)
    [] key.k = "short" -> Cardinality(Nodes(g)) = 1 /\ \E k \in 1..Len(g.e) : g.e[k].par = key.par
ValsOf(g, nd, p) == g.e[Idx(g, nd, p)].vals
NodeItems(g, nd) == SelectSeq([k \in 1..Len(g.e) |-> [par |-> g.e[k].par, vals |-> g.e[k].vals, node |-> g.e[k].node]],
                              LAMBDA x : x.node = nd)
Get(g, key) ==
  IF ~HasKey(g, key) THEN [r |-> "KeyError"]
  ELSE CASE key.k = "node" -> [r |-> "node", items |-> NodeItems(g, key.node)]
         [] key.k = "full" -> [r |-> "vals", vals |-> ValsOf(g, key.node, key.par)]
         [] key.k = "short" -> [r |-> "vals", vals |-> g.e[CHOOSE k \in 1..Len(g.e) : g.e[k].par = key.par].vals]

(* extract_parameters: a full name gives that entry under its full name; a short name gives the entry under
   the short name if exactly one node has it, otherwise every such entry under its full name. *)
ShortHits(g, p) == {k \in 1..Len(g.e) : g.e[k].par = p}
RECURSIVE Extracted(_, _)
Extracted(g, names) ==
  IF names = <<>> THEN {}
  ELSE LET x == names[1] IN
       (IF x.k = "full" THEN {[name |-> x.node \o "." \o x.par, vals |-> ValsOf(g, x.node, x.par)]}
        ELSE IF Cardinality(ShortHits(g, x.par)) = 1
             THEN {[name |-> x.par, vals |-> g.e[k].vals] : k \in ShortHits(g, x.par)}
             ELSE {[name |-> Full(g.e[k]), vals |-> g.e[k].vals] : k \in ShortHits(g, x.par)})
       \cup Extracted(g, Tail(names))
Extract(g, names) ==
  IF \E j \in 1..Len(names) :
        IF names[j].k = "full" THEN ~Has(g, names[j].node, names[j].par) ELSE ShortHits(g, names[j].par) = {}
  THEN [r |-> "KeyError"]
  ELSE [r |-> "items", items |-> SetToSeq(Extracted(g, names))]

\* ---------------------------------------------------------------- the actions
Put(s, d, g) == [s EXCEPT ![d] = g]
Ok(s) == [s |-> s, out |-> [r |-> "ok"]]
Err(s, name) == [s |-> s, out |-> [r |-> name]]

NewAct(s, op) == IF op.n < 1 THEN Err(s, "ValueError") ELSE Ok(Put(s, op.d, [n |-> op.n, e |-> <<>>]))
SetAct(s, op) == LET r == SetResult(s[op.d], op.node, op.par, op.val, op.fx) IN
                 IF r.ok THEN Ok(Put(s, op.d, r.g)) ELSE Err(s, "ValueError")
UpdateAct(s, op) ==
  LET src == s[op.a] dst == s[op.d] IN
  IF src.n # dst.n /\ src.n # 1 THEN Err(s, "ValueError")
  ELSE Ok(Put(s, op.d, UpdateResult(dst, AsItems(src, dst.n), op.fx).g))
UpdateDictAct(s, op) ==
  LET r == UpdateResult(s[op.d], op.items, op.fx) IN
  IF r.ok THEN Ok(Put(s, op.d, r.g)) ELSE [s |-> s, out |-> [r |-> "abort"]]
PokeAct(s, op) == \* assign one element of an array obtained by lookup (in place)
  LET g == s[op.d] k == Idx(g, op.node, op.par) IN
  Ok([s EXCEPT ![op.d].e[k].vals[op.i] = op.v])
CopyAct(s, op) == Ok(Put(s, op.d, s[op.a]))
SliceAct(s, op) == IF op.i \notin 1..s[op.a].n THEN Err(s, "ValueError") ELSE Ok(Put(s, op.d, Slice(s[op.a], op.i)))
IterAct(s, op) == [s |-> s, out |-> [r |-> "states", states |-> [i \in 1..s[op.a].n |-> Slice(s[op.a], i)]]]
NodeStateAct(s, op) ==
  LET g == s[op.a] IN
  IF ~HasNode(g, op.node) THEN Err(s, "KeyError")
  ELSE IF op.i \notin 1..g.n THEN Err(s, "ValueError")
  ELSE [s |-> s, out |-> [r |-> "node", items |-> [k \in 1..Len(NodeItems(g, op.node)) |->
                           [par |-> NodeItems(g, op.node)[k].par, vals |-> <<NodeItems(g, op.node)[k].vals[op.i]>>]]]]
ConcatAct(s, op) ==
  LET gs == [k \in 1..Len(op.src) |-> s[op.src[k]]] IN
  IF gs = <<>> \/ \E k \in 1..Len(gs) : Keys(gs[k]) # Keys(gs[1]) THEN Err(s, "ValueError")
  ELSE Ok(Put(s, op.d, Concat(gs)))
RoundTripAct(s, op) == Ok(Put(s, op.d, Unfix(s[op.a])))   \* table, dict, nested dict, file
EqAct(s, op) == [s |-> s, out |-> [r |-> "bool", b |-> SameState(s[op.a], s[op.d])]]
ContainsAct(s, op) == [s |-> s, out |-> [r |-> "bool", b |-> HasKey(s[op.d], op.key)]]
GetAct(s, op) == [s |-> s, out |-> Get(s[op.d], op.key)]
ExtractAct(s, op) == [s |-> s, out |-> Extract(s[op.d], op.names)]

Step(s, op) ==
  CASE op.k = "new" -> NewAct(s, op)
    [] op.k = "set" -> SetAct(s, op)
    [] op.k = "update" -> UpdateAct(s, op)
    [] op.k = "updict" -> UpdateDictAct(s, op)
    [] op.k = "poke" -> PokeAct(s, op)
    [] op.k = "copy" -> CopyAct(s, op)
    [] op.k = "slice" -> SliceAct(s, op)
    [] op.k = "iter" -> IterAct(s, op)
    [] op.k = "nodestate" -> NodeStateAct(s, op)
    [] op.k = "concat" -> ConcatAct(s, op)
    [] op.k = "trip" -> RoundTripAct(s, op)
    [] op.k = "eq" -> EqAct(s, op)
    [] op.k = "contains" -> ContainsAct(s, op)
    [] op.k = "get" -> GetAct(s, op)
    [] op.k = "extract" -> ExtractAct(s, op)

\* ---------------------------------------------------------------- properties of the specification itself
WellFormed(g) == /\ \A k \in 1..Len(g.e) : Len(g.e[k].vals) = g.n
                 /\ \A j, k \in 1..Len(g.e) : (g.e[j].node = g.e[k].node /\ g.e[j].par = g.e[k].par) => j = k
StateInv(s) == \A d \in 1..Len(s) : WellFormed(s[d])
ReadOnly == {"iter", "nodestate", "eq", "contains", "get", "extract"}
(* A fixed parameter keeps its value under set and update; only the destination changes; rejected calls and
   reads change nothing. *)
StepInv(s, op, out, s2) ==
  /\ (op.k \in ReadOnly \/ out.r \in {"ValueError", "KeyError"}) => s2 = s
  /\ \A d \in 1..Len(s) : (op.k \notin ReadOnly /\ d # op.d) => s2[d] = s[d]
  /\ op.k \in {"set", "update", "updict"} =>
       \A k \in 1..Len(s[op.d].e) : s[op.d].e[k].fx => s2[op.d].e[k] = s[op.d].e[k]
RECURSIVE RunOps(_, _)
RunOps(s, ops) == IF ops = <<>> THEN s ELSE RunOps(Step(s, ops[1]).s, Tail(ops))
InitState(c) == RunOps([d \in 1..c.slots |-> Empty], c.pre)
Obs(s) == s

\* ---------------------------------------------------------------- small-scope exploration
S(v) == [k |-> "sc", v |-> v]
A(v) == [k |-> "arr", v |-> v]
SetOp(d, nd, p, val, fx) == [k |-> "set", d |-> d, node |-> nd, par |-> p, val |-> val, fx |-> fx]
New(d, n) == [k |-> "new", d |-> d, n |-> n]
PreStates == {
  <<New(1, 2), SetOp(1, "a", "x", A(<<"1", "2">>), FALSE), SetOp(1, "b", "x", S("3"), TRUE), New(2, 1), SetOp(2, "a", "x", S("9"), FALSE)>>,
  <<New(1, 1), SetOp(1, "a", "x", S("1"), TRUE), SetOp(1, "a", "y", S("2"), FALSE), New(2, 3), SetOp(2, "a", "y", A(<<"4", "5", "6">>), FALSE)>>,
  <<New(1, 3), SetOp(1, "a", "x", A(<<"1", "2", "3">>), FALSE), New(2, 3), SetOp(2, "a", "x", A(<<"1", "2", "3">>), TRUE)>>,
  <<New(1, 1), SetOp(1, "a", "x", S("1"), FALSE), New(2, 1), SetOp(2, "a", "x", S("1"), FALSE), SetOp(2, "b", "y", S("2"), FALSE)>>,
  <<>> }
MCConfigs == {[slots |-> NSlots, pre |-> pre] : pre \in PreStates}
MCKeys == {[k |-> "node", node |-> nd] : nd \in MCNodes} \cup {[k |-> "short", par |-> p] : p \in MCPars}
          \cup {[k |-> "full", node |-> nd, par |-> p] : nd \in MCNodes, p \in MCPars}
MCNames == {<<x>> : x \in MCKeys \ {[k |-> "node", node |-> nd] : nd \in MCNodes}}
           \cup {<<[k |-> "short", par |-> p], [k |-> "full", node |-> nd, par |-> q]>> : p \in MCPars, q \in MCPars, nd \in MCNodes}
Live(s) == {d \in 1..Len(s) : s[d].n > 0}
MCOps(s) ==
  LET live == Live(s)
      On(kind, set) == IF kind \in MCKinds THEN set ELSE {} IN
    On("new", {New(d, n) : d \in {x \in 1..Len(s) : s[x].n = 0}, n \in MCSizes})
    \cup On("set", {SetOp(d, nd, p, S(v), fx) : d \in live, nd \in MCNodes \cup {"a.b"}, p \in MCPars, v \in MCVals, fx \in BOOLEAN})
    \cup On("set", {SetOp(d, nd, p, A([i \in 1..m |-> IF i = 1 THEN "7" ELSE "8"]), FALSE) :
            d \in {x \in live : s[x].n > 1}, nd \in MCNodes, p \in MCPars, m \in {2, 3}})
    \cup On("update", {[k |-> "update", d |-> d, a |-> a, fx |-> fx] : d \in live, a \in live, fx \in BOOLEAN})
    \cup On("copy", {[k |-> "copy", d |-> d, a |-> a] : d \in 1..Len(s), a \in live})
    \cup On("slice", {[k |-> "slice", d |-> d, a |-> a, i |-> i] : d \in 1..Len(s), a \in live, i \in 0..3})
    \cup On("concat", {[k |-> "concat", d |-> d, src |-> src] : d \in 1..Len(s), src \in {<<a>> : a \in live} \cup {<<a, b>> : a \in live, b \in live}})
    \cup On("trip", {[k |-> "trip", d |-> d, a |-> a, via |-> via] : d \in 1..Len(s), a \in {x \in live : s[x].e # <<>>}, via \in {"table", "dict", "nested", "file"}})
    \cup On("eq", {[k |-> "eq", d |-> d, a |-> a] : d \in live, a \in live})
    \cup On("contains", {[k |-> "contains", d |-> d, key |-> key] : d \in live, key \in MCKeys})
    \cup On("get", {[k |-> "get", d |-> d, key |-> key] : d \in live, key \in MCKeys})
    \cup On("nodestate", {[k |-> "nodestate", a |-> a, node |-> nd, i |-> i] : a \in live, nd \in MCNodes, i \in 0..3})
    \cup On("iter", {[k |-> "iter", a |-> a] : a \in live})
    \cup On("extract", {[k |-> "extract", d |-> d, names |-> names] : d \in live, names \in MCNames})
====
