----------------------------- MODULE TAlgebra -----------------------------
(* the first event of a trace names the sizes: [op |-> "begin", kind |-> "v" or "m", M, N, K] *)
EXTENDS Algebra, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, k, st
vars == <<t, l, k, st>>
Ev == Traces[t].ev[l]
Init == t \in 1..Len(Traces) /\ l = 1 /\ k = "?" /\ st = <<>>
Begin(e) == IF e.kind = "v" THEN [i \in 1..4 |-> [j \in 1..e.N |-> 0]] ELSE MStart(e.M, e.N, e.K)
Ok(e) == IF k = "?" THEN e.op = "begin" ELSE IF k = "v" THEN VAllowed(st, e) ELSE MAllowed(st, e)
Next == /\ l > 0 /\ l <= Len(Traces[t].ev) /\ t' = t
        /\ IF "d" \notin DOMAIN Ev /\ Ev.op # "begin" THEN PrintT(<<"REJECT", Traces[t].id, l>>) /\ l' = -1 /\ UNCHANGED <<k, st>>
           ELSE IF Ok(Ev) THEN /\ l' = l + 1
                               /\ IF k = "?" THEN k' = Ev.kind /\ st' = Begin(Ev) ELSE k' = k /\ st' = (IF k = "v" THEN VAfter(st, Ev) ELSE MAfter(st, Ev))
           ELSE PrintT(<<"REJECT", Traces[t].id, l>>) /\ l' = -1 /\ UNCHANGED <<k, st>>
Spec == Init /\ [][Next]_vars
=============================================================================
