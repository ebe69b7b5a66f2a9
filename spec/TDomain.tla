------------------------------ MODULE TDomain ------------------------------
EXTENDS Domain, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st
vars == <<t, l, st>>
Ev == Traces[t].ev[l]
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = [P |-> <<>>, ax |-> <<0, 0>>]
Next == /\ l > 0 /\ l <= Len(Traces[t].ev) /\ t' = t
        /\ IF Allowed(st, Ev) THEN l' = l + 1 /\ st' = After(st, Ev)
           ELSE PrintT(<<"REJECT", Traces[t].id, l>>) /\ l' = -1 /\ st' = st
Spec == Init /\ [][Next]_vars
=============================================================================
