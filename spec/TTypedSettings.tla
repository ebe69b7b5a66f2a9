--------------------------- MODULE TTypedSettings ---------------------------
EXTENDS TypedSettings, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
NS == 3
VARIABLES t, l, st
vars == <<t, l, st>>
Ev == Traces[t].ev[l]
Allowed(s, e) == /\ e.op \in {"set", "over", "copy", "script", "destroy"} /\ e.res = "ok"
                 /\ LET n == After(s, e) IN \A i \in 1..NS : SlotOk(n[i], e.obs[i])
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = [i \in 1..NS |-> None]
Next == /\ l > 0 /\ l <= Len(Traces[t].ev) /\ t' = t
        /\ IF Allowed(st, Ev) THEN l' = l + 1 /\ st' = After(st, Ev)
           ELSE PrintT(<<"REJECT", Traces[t].id, l>>) /\ l' = -1 /\ st' = st
Spec == Init /\ [][Next]_vars
=============================================================================
