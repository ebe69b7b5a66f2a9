------------------------------- MODULE TSFile -------------------------------
EXTENDS SFile, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, S
vars == <<t, l, S>>
Ev == Traces[t].ev[l]
Known == {"open","close","del","raw","byhand","write","multi","attr","struct","has","type","get","getattr","getmulti","hash","ftype","unsup","header","dump"}
Allowed(s, e) == e.op \in Known /\ Res(s, e, e.res)
Init == t \in 1..Len(Traces) /\ l = 1 /\ S = InitS
Next == /\ l > 0 /\ l <= Len(Traces[t].ev) /\ t' = t
        /\ IF Allowed(S, Ev) THEN l' = l + 1 /\ S' = After(S, Ev)
           ELSE PrintT(<<"REJECT", Traces[t].id, l>>) /\ l' = -1 /\ S' = S
Spec == Init /\ [][Next]_vars
=============================================================================
