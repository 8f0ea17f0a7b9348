---- MODULE TR_Samplers ----
(* Trace validation for Samplers: every recorded trace is accepted, or rejected at a named event and clause. *)
EXTENDS Samplers, Json, TLC, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s, bad
vars == <<t, i, s, bad>>
Init == /\ t \in 1..Len(Traces)
        /\ i = 0
        /\ s = TInit(Traces[t].cfg)
        /\ bad = ""
Next == /\ bad = ""
        /\ i < Len(Traces[t].ev)
        /\ i' = i + 1
        /\ t' = t
        /\ LET r == Accept(s, Traces[t].ev[i + 1]) IN
             IF r.ok THEN s' = r.s /\ bad' = "" ELSE s' = s /\ bad' = r.clause
Spec == Init /\ [][Next]_vars
Inv == TInv(s)
Emit == /\ (bad # "") => PrintT("@@" \o ToJson([t |-> t, i |-> i - 1, clause |-> bad]))
        /\ (bad = "" /\ i = Len(Traces[t].ev)) => PrintT("@@" \o ToJson([t |-> t, i |-> i, clause |-> "ok"]))
====
