---------------------------- MODULE TConfigLang ----------------------------
(* Trace specification: every recorded load of a script by the real library *)
(* must be one the language definition allows.                              *)
EXTENDS ConfigLang, Json, IOUtils, Integers
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<t, l>>
Ev == Traces[t].ev[l]

Reported(r) == r.exc \in {"config", "softlib"} \/ (r.exc = "none" /\ r.err)

LoadAllowed(e) ==
    LET p == Read(e.script, e.types, e.files, e.self)
        v == Verdict(p)
        r == e.res
    IN  CASE v = "ok" -> r.exc = "none" /\ ~r.err /\ r.parents /\ r.tree = Tree(p)
          [] v = "malformed" -> Reported(r)
          [] v = "unspecified" -> TRUE

Allowed(e) == CASE e.op = "load" -> LoadAllowed([e EXCEPT !.self = ToSet(e.self)])
                [] OTHER -> FALSE       \* crash, hang

Init == t \in 1..Len(Traces) /\ l = 1
Next == /\ l > 0 /\ l <= Len(Traces[t].ev) /\ t' = t
        /\ IF Allowed(Ev) THEN l' = l + 1
           ELSE PrintT(<<"REJECT", Traces[t].id, l>>) /\ l' = -1
Spec == Init /\ [][Next]_vars
=============================================================================
