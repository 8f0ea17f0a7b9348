---- MODULE OR_Effects ----
(* Effects as an oracle: executes given scripts (configuration and operations) and prints, for every
   script, the outcome and the projected state that the specification prescribes after every step. *)
EXTENDS Effects, Json, TLC, IOUtils
Scripts == JsonDeserialize(IOEnv.SCRIPTS)
VARIABLES t, i, s, log
vars == <<t, i, s, log>>
Init == /\ t \in 1..Len(Scripts)
        /\ i = 0
        /\ s = InitState(Scripts[t].cfg)
        /\ log = <<[obs |-> Obs(InitState(Scripts[t].cfg))]>>
Next == /\ i < Len(Scripts[t].ops)
        /\ i' = i + 1
        /\ t' = t
        /\ LET op == Scripts[t].ops[i + 1]
               r == Step(s, op) IN
             /\ s' = r.s
             /\ log' = Append(log, [out |-> r.out, obs |-> Obs(r.s)])
Spec == Init /\ [][Next]_vars
Inv == StateInv(s)
Act == [][StepInv(s, Scripts[t].ops[i + 1], log'[Len(log')].out, s')]_vars
Emit == (i = Len(Scripts[t].ops)) => PrintT("@@" \o ToJson([t |-> t, log |-> log]))
====
