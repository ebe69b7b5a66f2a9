-------------------------------- MODULE TEquilibrium --------------------------------
EXTENDS Equilibrium, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, o
vars == <<t, l, o>>
Ev == Traces[t].ev[l]
Init == t \in 1..Len(Traces) /\ l = 1 /\ o = [o |-> [i \in {} |-> 0], f |-> [i \in {} |-> 0]]
Next == /\ l > 0 /\ l <= Len(Traces[t].ev) /\ t' = t
        /\ IF "ret" \in DOMAIN Ev /\ (IF "ret" \in DOMAIN Ev THEN Allowed(o, Ev) ELSE FALSE) THEN l' = l + 1 /\ o' = After(o, Ev)
           ELSE PrintT(<<"REJECT", Traces[t].id, l>>) /\ l' = -1 /\ o' = o
Spec == Init /\ [][Next]_vars
=============================================================================
