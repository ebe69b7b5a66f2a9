--------------------------- MODULE TConfigBlocks ---------------------------
EXTENDS ConfigBlocks, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
NS == 3
VARIABLES t, l, st
vars == <<t, l, st>>
Ev == Traces[t].ev[l]
Known == {"new","load","register","seterr","addset","addsub","graft","addcopy","get","index","append","probe","merge","mergeblk","copy","destroy"}
Allowed(s, e) == /\ e.op \in Known
                 /\ Res(s, e, e.res)
                 /\ LET n == After(s, e) IN \A i \in 1..NS : e.obs[i] = ObsSlot(n[i])
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = [i \in 1..NS |-> Dead]
Next == /\ l > 0 /\ l <= Len(Traces[t].ev) /\ t' = t
        /\ IF Allowed(st, Ev) THEN l' = l + 1 /\ st' = After(st, Ev)
           ELSE PrintT(<<"REJECT", Traces[t].id, l>>) /\ l' = -1 /\ st' = st
Spec == Init /\ [][Next]_vars
=============================================================================
