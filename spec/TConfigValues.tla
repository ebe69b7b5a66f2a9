--------------------------- MODULE TConfigValues ---------------------------
EXTENDS ConfigValues, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<t, l>>
Ev == Traces[t].ev[l]
Allowed(e) == e.op = "setting" /\ SettingOk(e.vals, e.res)
Init == t \in 1..Len(Traces) /\ l = 1
Next == /\ l > 0 /\ l <= Len(Traces[t].ev) /\ t' = t
        /\ IF Allowed(Ev) THEN l' = l + 1
           ELSE PrintT(<<"REJECT", Traces[t].id, l>>) /\ l' = -1
Spec == Init /\ [][Next]_vars
=============================================================================
