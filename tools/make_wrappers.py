"""Writes the exploration (MC_), oracle (OR_) and trace (TR_) wrapper modules of every specification.

A specification X defines  InitState(cfg), Step(s, op) (a record [s, out]), Obs(s), StateInv(s),
StepInv(s, op, out, s2),  MCConfigs and MCOps(s);  trace specifications define  TInit(cfg), Accept(s, e)
(a record [ok, clause, s]) and TInv(s).
"""
import os, re, sys

SPECS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "specs")
MC = r'''---- MODULE MC_%(X)s ----
(* Exhaustive exploration (or simulation) of %(X)s: every history of at most Depth operations from
   every initial configuration.  Each history of length Depth is printed for replay on the code. *)
EXTENDS %(X)s, Json, TLC
CONSTANT Depth
VARIABLES s, log
vars == <<s, log>>
Init == \E c \in MCConfigs : s = InitState(c) /\ log = <<[cfg |-> c, obs |-> Obs(InitState(c))]>>
Next == /\ Len(log) <= Depth
        /\ \E op \in MCOps(s) :
             LET r == Step(s, op) IN
               /\ s' = r.s
               /\ log' = Append(log, [op |-> op, out |-> r.out, obs |-> Obs(r.s)])
Spec == Init /\ [][Next]_vars
Inv == StateInv(s)
LastOp == log'[Len(log')]
Act == [][StepInv(s, LastOp.op, LastOp.out, s')]_vars
Emit == (Len(log) = Depth + 1) => PrintT("@@" \o ToJson(log))
====
'''
OR = r'''---- MODULE OR_%(X)s ----
(* %(X)s as an oracle: executes given scripts (configuration and operations) and prints, for every
   script, the outcome and the projected state that the specification prescribes after every step. *)
EXTENDS %(X)s, Json, TLC, IOUtils
Scripts == JsonDeserialize(IOEnv.SCRIPTS)
VARIABLES t, i, s, log
vars == <<t, i, s, log>>
Init == /\ t \in 1..Len(Scripts)
        /\ i = 0
        /\ s = InitState(Scripts[t].cfg)
        /\ log = <<[obs |-> Obs(InitState(Scripts[t].cfg))]>>
Next == /\ i < Len(Scripts[t].ops)
        /\ i' = i + 1
        /\ t' = t
        /\ LET op == Scripts[t].ops[i + 1]
               r == Step(s, op) IN
             /\ s' = r.s
             /\ log' = Append(log, [out |-> r.out, obs |-> Obs(r.s)])
Spec == Init /\ [][Next]_vars
Inv == StateInv(s)
Act == [][StepInv(s, Scripts[t].ops[i + 1], log'[Len(log')].out, s')]_vars
Emit == (i = Len(Scripts[t].ops)) => PrintT("@@" \o ToJson([t |-> t, log |-> log]))
====
'''
TR = r'''---- MODULE TR_%(X)s ----
(* Trace validation for %(X)s: every recorded trace is accepted, or rejected at a named event and clause. *)
EXTENDS %(X)s, Json, TLC, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s, bad
vars == <<t, i, s, bad>>
Init == /\ t \in 1..Len(Traces)
        /\ i = 0
        /\ s = TInit(Traces[t].cfg)
        /\ bad = ""
Next == /\ bad = ""
        /\ i < Len(Traces[t].ev)
        /\ i' = i + 1
        /\ t' = t
        /\ LET r == Accept(s, Traces[t].ev[i + 1]) IN
             IF r.ok THEN s' = r.s /\ bad' = "" ELSE s' = s /\ bad' = r.clause
Spec == Init /\ [][Next]_vars
Inv == TInv(s)
Emit == /\ (bad # "") => PrintT("@@" \o ToJson([t |-> t, i |-> i - 1, clause |-> bad]))
        /\ (bad = "" /\ i = Len(Traces[t].ev)) => PrintT("@@" \o ToJson([t |-> t, i |-> i, clause |-> "ok"]))
====
'''
for f in sorted(os.listdir(SPECS)):
    m = re.match(r"([A-Z]\w+)\.tla$", f)
    if not m or f[:3] in ("MC_", "OR_", "TR_"):
        continue
    text = open(os.path.join(SPECS, f)).read()
    x = {"X": m.group(1)}
    for pre, tmpl, marker in (("MC_", MC, "MCOps("), ("OR_", OR, "InitState("), ("TR_", TR, "TInit(")):
        if marker in text:
            open(os.path.join(SPECS, pre + f), "w").write(tmpl % x)
