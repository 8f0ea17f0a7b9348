---- MODULE Lclib ----
(***************************************************************************
 The reader of light curve libraries (SNANA's LCLIB text format) as a state machine over the lines of
 the file: header, documentation block, events with their observations and templates.  The file may end
 after any line (a truncated file), so that the state after every line is what reading that prefix returns.

 cfg: [name]  a name for the file (not interpreted)
 Line (operation) [k, ...]:
    "skip"                    an empty line, a comment, or text without a key
    "doc", "docend"           beginning and end of the documentation block
    "filters"  v: Seq(name)   the columns of all rows after the time
    "names"    v: Seq(name)   the names of the parameters of the events
    "par"      v: Seq(value)  the parameters of the event (or of all events, in the header)
    "key"      key, v         any other metadata
    "start"    id             "end" id
    "row"      t ("S", "T"), v: Seq(Int)    time and one value per filter
 State: doc, cols, names, head (metadata of the file), meta (of the open event), par, open, id, rows,
        curves (completed events, in order), err
 ***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MCCols, MCIds, MCKeys

Put(m, key, v) == {e \in m : e.key # key} \cup {[key |-> key, v |-> v]}
InitState(c) == [doc |-> FALSE, cols |-> <<>>, names |-> <<>>, head |-> {}, hpar |-> <<>>, meta |-> {}, par |-> <<>>,
                 open |-> FALSE, id |-> "", rows |-> <<>>, curves |-> <<>>, err |-> FALSE]
Obs(s) == [curves |-> s.curves, err |-> s.err]

Ok(s) == [s |-> s, out |-> "ok"]
Bad(s) == [s |-> [s EXCEPT !.err = TRUE, !.curves = <<>>], out |-> "ValueError"]
Pairs(names, v) == [i \in 1..Len(names) |-> [key |-> names[i], v |-> v[i]]]

Start(s, id) == [s EXCEPT !.open = TRUE, !.id = id, !.rows = <<>>, !.meta = s.head, !.par = s.hpar]
End(s) == [s EXCEPT !.open = FALSE, !.id = "", !.rows = <<>>, !.meta = {}, !.par = <<>>,
                    !.curves = Append(@, [id |-> s.id, cols |-> s.cols, rows |-> s.rows, meta |-> s.meta, par |-> s.par])]
Feed(s, l) ==
  CASE l.k = "skip" -> Ok(s)
    [] l.k = "doc" -> Ok([s EXCEPT !.doc = TRUE])
    [] l.k = "docend" -> Ok([s EXCEPT !.doc = FALSE])
    [] s.doc -> Ok(s)                            \* nothing in a documentation block counts
    [] l.k = "filters" -> Ok([s EXCEPT !.cols = l.v])
    [] l.k = "names" -> Ok([s EXCEPT !.names = l.v])
    [] l.k = "key" -> Ok(IF s.open THEN [s EXCEPT !.meta = Put(@, l.key, l.v)] ELSE [s EXCEPT !.head = Put(@, l.key, l.v)])
    [] l.k = "par" -> IF Len(l.v) # Len(s.names) THEN Bad(s)
                      ELSE Ok(IF s.open THEN [s EXCEPT !.par = Pairs(s.names, l.v)] ELSE [s EXCEPT !.hpar = Pairs(s.names, l.v)])
    [] l.k = "start" -> IF s.cols = <<>> THEN Bad(s) ELSE Ok(Start(s, l.id))
    [] l.k = "row" -> IF Len(l.v) # Len(s.cols) + 1 THEN Bad(s) ELSE Ok([s EXCEPT !.rows = Append(@, [t |-> l.t, v |-> l.v])])
    [] l.k = "end" -> IF l.id # s.id THEN Bad(s) ELSE Ok(End(s))
Step(s, l) == IF s.err THEN [s |-> s, out |-> "ValueError"] ELSE Feed(s, l)

\* ---------------------------------------------------------------- properties of the specification
StateInv(s) ==
  /\ \A i \in 1..Len(s.curves) : \A j \in 1..Len(s.curves[i].rows) : Len(s.curves[i].rows[j].v) = Len(s.curves[i].cols) + 1
  /\ \A e \in s.meta, f \in s.meta : e.key = f.key => e = f
StepInv(s, l, out, s2) ==
  /\ Len(s2.curves) - Len(s.curves) \in {0, 1} \/ s2.err
  /\ ~s2.err => \A i \in 1..Len(s.curves) : s2.curves[i] = s.curves[i]      \* later lines never change a completed event
  /\ Len(s2.curves) = Len(s.curves) + 1 => l.k = "end" /\ s2.curves[Len(s2.curves)].id = l.id /\ ~s2.open
  /\ s.doc /\ l.k # "docend" => s2 = s
  /\ s.err => s2 = s

MCConfigs == {[name |-> "mc"]}
MCOps(s) ==
  {[k |-> "skip"], [k |-> IF s.doc THEN "docend" ELSE "doc"]}
  \cup (IF s.cols = <<>> THEN {[k |-> "filters", v |-> SubSeq(<<"g", "r">>, 1, n)] : n \in MCCols} ELSE {})
  \cup (IF s.names = <<>> THEN {[k |-> "names", v |-> <<"A", "B">>]} ELSE {[k |-> "par", v |-> <<"1", "2">>], [k |-> "par", v |-> <<"1">>]})
  \cup {[k |-> "key", key |-> key, v |-> IF s.open THEN "e" ELSE "h"] : key \in MCKeys}
  \cup {[k |-> "start", id |-> id] : id \in MCIds}
  \cup {[k |-> "end", id |-> id] : id \in MCIds}
  \cup (IF s.open THEN {[k |-> "row", t |-> t, v |-> [i \in 1..(Len(s.cols) + 1) |-> 10 * Len(s.rows) + i]] : t \in {"S", "T"}} ELSE {})
====
