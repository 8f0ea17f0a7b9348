---- MODULE Files ----
(***************************************************************************
 The directory of numeric data files (spectra, grids, passband tables, ...) and its readers.  A file holds
 rows of numbers; it is written, replaced, removed, or fetched from a remote place, in any order, and every
 reader returns what the file holds at that time.

 cfg: remote  Seq(rows): what the remote place serves for each file (<<>>: nothing, the request fails)
 Operation:
   "write"   f, rows          the file is written
   "remove"  f
   "read"    f                the plain array
   "fetch"   f, force, url    get the file if it is not there (or in any case, if forced); url: an address is given
   "grid"    f, validate      the file as a grid: rows x0, x1, value; sorted by x0, then x1
   "band"    f, unit          the file as a transmission table: wavelength (in the unit), transmission
   "columns" f, want          the file as a table of several bands: a wavelength (in micron), and a transmission per band
   "bands"   want, unit       all files of the directory (or the wanted ones) as a group of passbands
 Tables of passbands are returned in Angstrom, and with doubled transmissions (so that the average of two
 duplicates remains a whole number).
 ***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS MCTables, MCFiles

None == <<<<>>>>                                      \* no such file
InitState(c) == [remote |-> c.remote, fs |-> [i \in 1..Len(c.remote) |-> None], asked |-> 0]
Obs(s) == [here |-> [i \in 1..Len(s.fs) |-> s.fs[i] # None], asked |-> s.asked]

Ok(s, tables) == [s |-> s, out |-> [r |-> "ok", tables |-> tables]]
Bad(s, e) == [s |-> s, out |-> [r |-> e, tables |-> <<>>]]

\* ---------------------------------------------------------------- grids
Xs(rows, k) == {rows[i][k] : i \in 1..Len(rows)}
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
InOrder(rows) == \A i \in 1..(Len(rows) - 1) : Before(rows[i], rows[i + 1])
Complete(rows) == Len(rows) = Cardinality(Xs(rows, 1)) * Cardinality(Xs(rows, 2))
Grid(rows) ==
  LET x0 == Sorted(Xs(rows, 1))
      x1 == Sorted(Xs(rows, 2)) IN
  <<x0, x1>> \o [i \in 1..Len(x0) |-> [j \in 1..Len(x1) |->
      LET k == CHOOSE k \in 1..Len(rows) : rows[k][1] = x0[i] /\ rows[k][2] = x1[j] IN rows[k][3]]]
ReadGrid(s, rows, validate) ==
  IF rows = <<>> \/ (\E i \in 1..Len(rows) : Len(rows[i]) # 3) \/ ~Complete(rows) THEN Bad(s, "ValueError")
  ELSE IF InOrder(rows) THEN Ok(s, Grid(rows))
  ELSE IF validate THEN Bad(s, "ValueError")
  ELSE Bad(s, "any")                                \* rows out of order, and no validation asked for

\* ---------------------------------------------------------------- transmission tables
Factor(unit) == IF unit = "nm" THEN 10 ELSE 1
Decreases(rows) == \E i \in 1..(Len(rows) - 1) : rows[i + 1][1] < rows[i][1]
RECURSIVE Merge(_, _)
Merge(rows, f) ==
  IF rows = <<>> THEN <<>>
  ELSE IF Len(rows) > 1 /\ rows[2][1] = rows[1][1]
       THEN <<<<f * rows[1][1], rows[1][2] + rows[2][2]>>>> \o Merge(SubSeq(rows, 3, Len(rows)), f)
       ELSE <<<<f * rows[1][1], 2 * rows[1][2]>>>> \o Merge(Tail(rows), f)
BandError(rows, unit) ==
  rows = <<>> \/ (\E i \in 1..Len(rows) : Len(rows[i]) # 2) \/ Decreases(rows) \/ unit \notin {"nm", "A"}
ReadBand(s, rows, unit) == IF BandError(rows, unit) THEN Bad(s, "ValueError") ELSE Ok(s, <<Merge(rows, Factor(unit))>>)

Members(s, want) == SelectSeq([i \in 1..Len(s.fs) |-> i], LAMBDA i : s.fs[i] # None /\ (want = <<>> \/ \E j \in 1..Len(want) : want[j] = i))
ReadBands(s, want, unit) ==
  LET m == Members(s, want) IN
  IF m = <<>> \/ (want # <<>> /\ Len(m) # Len(want)) \/ (\E i \in 1..Len(m) : BandError(s.fs[m[i]], unit)) THEN Bad(s, "ValueError")
  ELSE [s |-> s, out |-> [r |-> "ok", tables |-> [i \in 1..Len(m) |-> Merge(s.fs[m[i]], Factor(unit))], members |-> m]]

Columns(rows, want) == [i \in 1..Len(want) |-> [j \in 1..Len(rows) |-> <<10000 * rows[j][1], 2 * rows[j][1 + want[i]]>>]]
ReadColumns(s, rows, want) ==
  LET m == IF want = <<>> THEN [i \in 1..(Len(rows[1]) - 1) |-> i] ELSE SelectSeq([i \in 1..(Len(rows[1]) - 1) |-> i], LAMBDA i : \E j \in 1..Len(want) : want[j] = i) IN
  [s |-> s, out |-> [r |-> "ok", tables |-> Columns(rows, m), members |-> m]]

\* ---------------------------------------------------------------- the remote place
Fetch(s, f, force, url) ==
  IF s.fs[f] # None /\ ~force THEN Ok(s, <<>>)
  ELSE IF ~url THEN Bad(s, "ValueError")
  ELSE IF s.remote[f] = <<>> THEN Bad([s EXCEPT !.asked = @ + 1], "failed")      \* and a file that is there stays
  ELSE Ok([s EXCEPT !.asked = @ + 1, !.fs[f] = s.remote[f]], <<>>)

Step(s, op) ==
  CASE op.k = "write" -> Ok([s EXCEPT !.fs[op.f] = op.rows], <<>>)
    [] op.k = "remove" -> Ok([s EXCEPT !.fs[op.f] = None], <<>>)
    [] op.k = "fetch" -> Fetch(s, op.f, op.force, op.url)
    [] op.k = "bands" -> ReadBands(s, op.want, op.unit)
    [] s.fs[op.f] = None -> Bad(s, "FileNotFoundError")
    [] op.k = "read" -> Ok(s, <<s.fs[op.f]>>)
    [] op.k = "grid" -> ReadGrid(s, s.fs[op.f], op.validate)
    [] op.k = "columns" -> ReadColumns(s, s.fs[op.f], op.want)
    [] op.k = "band" -> ReadBand(s, s.fs[op.f], op.unit)

\* ---------------------------------------------------------------- properties of the specification
StateInv(s) == s.asked >= 0 /\ Len(s.fs) = Len(s.remote)
StepInv(s, op, out, s2) ==
  /\ op.k \in {"read", "grid", "band", "bands", "columns"} => s2 = s                        \* readers change nothing
  /\ out.r # "ok" => s2.fs = s.fs                                                \* failures change nothing
  /\ op.k = "fetch" /\ out.r = "ok" => s2.fs[op.f] # None
  /\ op.k = "fetch" /\ s.fs[op.f] # None /\ ~op.force => s2 = s
  /\ op.k = "grid" /\ out.r = "ok" => Len(out.tables) = 2 + Len(out.tables[1])
  /\ op.k = "band" /\ out.r = "ok" => \A i \in 1..(Len(out.tables[1]) - 1) : out.tables[1][i + 1][1] >= out.tables[1][i][1]

Table(n) == CASE n = 1 -> <<<<3, 8>>, <<5, 16>>, <<9, 4>>>>
              [] n = 2 -> <<<<3, 8>>, <<3, 16>>, <<9, 4>>>>
              [] n = 3 -> <<<<1, 4, 8>>, <<1, 6, 16>>, <<2, 4, 4>>, <<2, 6, 3>>>>
              [] n = 4 -> <<<<1, 4, 8>>, <<2, 4, 16>>, <<1, 6, 4>>, <<2, 6, 3>>>>
              [] n = 5 -> <<<<5, 8>>, <<3, 16>>>>
              [] n = 6 -> <<<<1, 4, 8>>, <<2, 4, 16>>, <<1, 6, 4>>>>
              [] n = 7 -> [i \in 1..2 |-> [j \in 1..9 |-> 3 * i + ((j * j) % 5)]]
              [] n = 8 -> [i \in 1..3 |-> [j \in 1..9 |-> 2 * i + 3 * j]]
Bands == 7 \in MCTables                              \* the files have columns of several bands
MCConfigs == {[remote |-> [i \in 1..MCFiles |-> IF i = 1 /\ ~Bands THEN Table(1) ELSE <<>>]]}
MCOps(s) ==
  IF Bands THEN {[k |-> "write", f |-> 1, rows |-> Table(n)] : n \in MCTables} \cup {[k |-> "remove", f |-> 1]}
       \cup (IF s.fs[1] # None THEN {[k |-> "columns", f |-> 1, want |-> w] : w \in {<<>>, <<2>>, <<8, 1, 5>>}} ELSE {})
  ELSE
  {[k |-> "write", f |-> f, rows |-> Table(n)] : f \in 1..MCFiles, n \in MCTables}
  \cup {[k |-> k, f |-> f] : k \in {"remove", "read"}, f \in 1..MCFiles}
  \cup {[k |-> "fetch", f |-> f, force |-> x, url |-> y] : f \in 1..MCFiles, x \in BOOLEAN, y \in BOOLEAN}
  \cup {[k |-> "grid", f |-> 1, validate |-> x] : x \in BOOLEAN}
  \cup {[k |-> "band", f |-> 1, unit |-> u] : u \in {"nm", "A"}}
  \cup {[k |-> "bands", want |-> w, unit |-> "nm"] : w \in {<<>>, <<1>>}}
====
