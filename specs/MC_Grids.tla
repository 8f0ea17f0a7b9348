---- MODULE MC_Grids ----
(* Exhaustive exploration (or simulation) of Grids: every history of at most Depth operations from
   every initial configuration.  Each history of length Depth is printed for replay on the code. *)
EXTENDS Grids, Json, TLC
CONSTANT Depth
VARIABLES s, log
vars == <<s, log>>
Init == \E c \in MCConfigs : s = InitState(c) /\ log = <<[cfg |-> c, obs |-> Obs(InitState(c))]>>
Next == /\ Len(log) <= Depth
        /\ \E op \in MCOps(s) :
             LET r == Step(s, op) IN
               /\ s' = r.s
               /\ log' = Append(log, [op |-> op, out |-> r.out, obs |-> Obs(r.s)])
Spec == Init /\ [][Next]_vars
Inv == StateInv(s)
LastOp == log'[Len(log')]
Act == [][StepInv(s, LastOp.op, LastOp.out, s')]_vars
Emit == (Len(log) = Depth + 1) => PrintT("@@" \o ToJson(log))
====
