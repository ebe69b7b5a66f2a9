----------------------------- MODULE TThreads -----------------------------
EXTENDS Threads, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<t, l>>
Ev == Traces[t].ev[l]
Alone == Traces[t].ev[1].rets
Ok == \/ Ev.op = "alone" /\ l = 1
      \/ Ev.op = "turns" /\ LogOk(Alone, Ev.log)
      \/ Ev.op = "together" /\ EachOk(Alone, Ev.rets)
Init == t \in 1..Len(Traces) /\ l = 1
Next == /\ l > 0 /\ l <= Len(Traces[t].ev) /\ t' = t
        /\ IF Ok THEN l' = l + 1
           ELSE PrintT(<<"REJECT", Traces[t].id, l>>) /\ l' = -1
Spec == Init /\ [][Next]_vars
=============================================================================
