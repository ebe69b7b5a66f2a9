---------------------------- MODULE TProgressLine ----------------------------
EXTENDS ProgressLine, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st
vars == <<t, l, st>>
Ev == Traces[t].ev[l]
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = Start0
X == Adv(st, Ev.ms, Ev.us)
Next == /\ l > 0 /\ l <= Len(Traces[t].ev) /\ t' = t
        /\ IF Ev.op = "report" /\ Report(Ev.n, Ev.np, X, Ev.est, Ev.colors, Ev.i, Ev.lines) THEN l' = l + 1 /\ st' = AfterReport(Ev.n, Ev.np, X, Ev.i)
           ELSE PrintT(<<"REJECT", Traces[t].id, l>>) /\ l' = -1 /\ st' = st
Spec == Init /\ [][Next]_vars
=============================================================================
