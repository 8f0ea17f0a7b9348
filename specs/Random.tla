---- MODULE Random ----
(***************************************************************************
 Where random numbers come from.  Every instance (a model graph with the generators of its own
 nodes) has one stream that its own draws advance; a given generator is a stream of its own.  A
 call that is given a generator consumes that generator and nothing else; a call without one
 consumes the instance's stream and nothing else.  A value is therefore a function of a key:

   given generator:  <<1, recipe, op, num, arg, seed of the generator>> \o everything drawn from it before
   own stream:       <<2, recipe, op, num, arg, seed of the instance>>  \o everything drawn from it before

 (arg identifies the input, e.g. the sampled state that is evaluated).  Equal keys give equal
 values, whatever happened to other instances, generators, or numpy's global generator; and the
 continuous draws of different keys (and all the draws of one call) differ.

 Configuration c: unused (a record).
 Operations / events:
   [k |-> "new", i, recipe, seed]      instance i is made again (seed 0: no seed given)
   [k |-> "setseed", i, seed]          its own generators are seeded again
   [k |-> "gen", g, seed]              generator g is made
   [k |-> "call", i, op, num, arg, g, own]   g = 0: without a generator (own: such a call is served by the
                                       instance's seeded stream, otherwise by an unseeded one)
       events also carry  r ("ok" or what was raised), val (id of the whole result), parts (ids of its continuous
                          draws), glob (numpy's global state is unchanged), sep ("" or why not separate)
   [k |-> "disturb"]                   somebody uses or seeds numpy's global generator
 ***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MCRecipes, MCSeeds, MCGenSeeds, MCNums

Range(q) == {q[i] : i \in 1..Len(q)}

\* inst[i] = [recipe, base, hist]: base is the beginning of its stream (<<seed>>, or <<0, n>> without a seed)
\* gens[g] = [seed, hist];  fresh counts unseeded instances and calls.
InitState(c) == [inst |-> <<>>, gens |-> <<>>, fresh |-> 0, memo |-> <<>>]
TInit(c) == InitState(c)
Grow(q, n, e) == IF Len(q) >= n THEN q ELSE q \o [j \in 1..(n - Len(q)) |-> e]
NoInst == [recipe |-> 0, base |-> <<0>>, hist |-> <<>>]
NoGen == [seed |-> 0, hist |-> <<>>]

Base(s, seed) == IF seed = 0 THEN <<0, s.fresh + 1>> ELSE <<seed, 0>>
Mark(s, op) == <<s.inst[op.i].recipe, op.op, op.num, op.arg>>
Key(s, op) ==
  IF op.g > 0 THEN <<1>> \o Mark(s, op) \o <<s.gens[op.g].seed, 0>> \o s.gens[op.g].hist
  ELSE IF op.own THEN <<2>> \o Mark(s, op) \o s.inst[op.i].base \o s.inst[op.i].hist
  ELSE <<3>> \o Mark(s, op) \o <<0, s.fresh + 1>>

\* The stream that a call draws from, and everything drawn from it up to and including this call.
Stream(s, op) == IF op.g > 0 THEN <<1, s.gens[op.g].seed>>
                 ELSE IF op.own THEN <<2>> \o s.inst[op.i].base
                 ELSE <<3, s.fresh + 1>>
Before(s, op) == IF op.g > 0 THEN s.gens[op.g].hist ELSE IF op.own THEN s.inst[op.i].hist ELSE <<>>
Path(s, op) == Before(s, op) \o Mark(s, op)
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

\* Two calls draw different numbers: from different streams, or one after the other from the same stream.
Apart(m, s, e) == m.stream # Stream(s, e) \/ Prefix(m.path, Before(s, e)) \/ Prefix(Path(s, e), m.before)

Enabled(s, op) ==
  CASE op.k \in {"setseed"} -> op.i <= Len(s.inst) /\ s.inst[op.i].recipe > 0
    [] op.k = "call" -> /\ op.i <= Len(s.inst) /\ s.inst[op.i].recipe > 0
                        /\ (op.g > 0 => op.g <= Len(s.gens) /\ s.gens[op.g].seed > 0)
    [] OTHER -> TRUE
Step(s, op) ==
  CASE op.k = "new" ->
         [s |-> [s EXCEPT !.inst = [Grow(s.inst, op.i, NoInst) EXCEPT ![op.i] = [recipe |-> op.recipe, base |-> Base(s, op.seed), hist |-> <<>>]],
                          !.fresh = @ + 1], out |-> <<>>]
    [] op.k = "setseed" -> [s |-> [s EXCEPT !.inst[op.i].base = Base(s, op.seed), !.inst[op.i].hist = <<>>, !.fresh = @ + 1], out |-> <<>>]
    [] op.k = "gen" -> [s |-> [s EXCEPT !.gens = [Grow(s.gens, op.g, NoGen) EXCEPT ![op.g] = [seed |-> op.seed, hist |-> <<>>]]], out |-> <<>>]
    [] op.k = "call" ->
         [s |-> IF op.g > 0 THEN [s EXCEPT !.gens[op.g].hist = @ \o Mark(s, op)]
                ELSE [s EXCEPT !.inst[op.i].hist = @ \o Mark(s, op), !.fresh = @ + 1],
          out |-> Key(s, op)]
    [] op.k = "disturb" -> [s |-> s, out |-> <<>>]

\* ---------------------------------------------------------------- properties of the model itself
Obs(s) == [inst |-> s.inst, gens |-> s.gens]
StateInv(s) == \A i \in 1..Len(s.inst) : s.inst[i].recipe = 0 => s.inst[i].hist = <<>>
\* Noninterference: a call changes the one stream that it was given (or the instance's own), never another.
StepInv(s, op, out, s2) ==
  /\ op.k = "call" /\ op.g > 0 => s2.inst = s.inst /\ \A g \in 1..Len(s.gens) : g # op.g => s2.gens[g] = s.gens[g]
  /\ op.k = "call" /\ op.g = 0 => s2.gens = s.gens /\ \A i \in 1..Len(s.inst) : i # op.i => s2.inst[i] = s.inst[i]
  /\ op.k = "disturb" => s2 = s
  \* The key of a later call differs: streams continue and do not repeat.
  /\ op.k = "call" => Key(s2, op) # out /\ Apart([stream |-> Stream(s, op), path |-> Path(s, op), before |-> Before(s, op)], s2, op)
  /\ op.k \in {"setseed", "new"} => s2.gens = s.gens

MCConfigs == {[x |-> 0]}
MCOps(s) ==
  LET all == [k : {"new"}, i : 1..2, recipe : MCRecipes, seed : MCSeeds]
             \cup [k : {"setseed"}, i : 1..2, seed : MCSeeds \ {0}]
             \cup [k : {"gen"}, g : 1..2, seed : MCGenSeeds]
             \cup [k : {"call"}, i : 1..2, op : {1}, num : MCNums, arg : {0}, g : 0..2, own : {TRUE}]
             \cup [k : {"disturb"}] IN
  {op \in all : Enabled(s, op)}

\* ---------------------------------------------------------------- acceptance of recorded calls
Fail(s, why) == [ok |-> FALSE, clause |-> why, s |-> s]
Pass(s) == [ok |-> TRUE, clause |-> "", s |-> s]
Known(s, key) == {j \in 1..Len(s.memo) : s.memo[j].key = key}
Distinct(q) == Cardinality(Range(q)) = Len(q)
AcceptCall(s, e) ==
  LET key == Key(s, e)
      old == Known(s, key)
      d == Step(s, e)
      parts == Range(e.parts) IN
  IF ~Enabled(s, e) THEN Fail(s, "machinery: call not enabled")
  ELSE IF e.r # "ok" THEN Fail(s, "sampling, evaluation and simulation work with and without a generator")
  ELSE IF ~e.glob THEN Fail(s, "numpy's global generator is left alone")
  ELSE IF old # {} THEN
    IF \E j \in old : s.memo[j].val # e.val
    THEN Fail(s, IF e.g > 0 THEN "the same seed of a given generator gives the same result"
                 ELSE "the same seed of the nodes gives the same sequence of results")
    ELSE Pass(d.s)
  ELSE IF ~Distinct(e.parts) THEN Fail(s, "the draws of one call differ")
  ELSE IF \E j \in 1..Len(s.memo) : Range(s.memo[j].parts) \cap parts # {} /\ Apart(s.memo[j], s, e)
    THEN Fail(s, "draws from different seeds or later draws from one generator differ")
  ELSE Pass([d.s EXCEPT !.memo = Append(@, [key |-> key, val |-> e.val, parts |-> e.parts, stream |-> Stream(s, e), path |-> Path(s, e), before |-> Before(s, e)])])
Accept(s, e) == IF e.k = "call" THEN AcceptCall(s, e) ELSE IF Enabled(s, e) THEN Pass(Step(s, e).s) ELSE Fail(s, "machinery: not enabled")
TInv(s) == \A i, j \in 1..Len(s.memo) : i # j => s.memo[i].key # s.memo[j].key
====
