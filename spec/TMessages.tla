------------------------------- MODULE TMessages -------------------------------
EXTENDS Messages, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<t, l>>
Ev == Traces[t].ev[l]
Init == t \in 1..Len(Traces) /\ l = 1
Next == /\ l > 0 /\ l <= Len(Traces[t].ev) /\ t' = t
        /\ IF "res" \in DOMAIN Ev /\ Allowed(Ev) THEN l' = l + 1
           ELSE PrintT(<<"REJECT", Traces[t].id, l>>) /\ l' = -1
Spec == Init /\ [][Next]_vars
=============================================================================
