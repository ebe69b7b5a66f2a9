--------------------------- MODULE TConfigErrors ---------------------------
(* Trace specification: the first error of every refused script names the   *)
(* source and the line at which the text stops being a script.              *)
EXTENDS ConfigErrors, Json, IOUtils, Integers
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<t, l>>
Ev == Traces[t].ev[l]

Src(e) == CASE e.route = "string" -> <<116, 101, 120, 116>>
            [] e.route = "stdin" -> <<115, 116, 100, 105, 110>>
            [] e.route = "file" -> IF e.self = <<>> THEN <<109, 97, 105, 110, 46, 99, 102, 103>> ELSE e.self[1]

LoadAllowed(e) ==
    LET pl == Places(e.script, Src(e), e.types, e.files, ToSet(e.self))
        r == e.res
    IN  CASE pl.loose -> TRUE
          [] ~pl.loose /\ pl.at = {} -> r.exc = "none" /\ ~r.err /\ ~r.rep.has
          [] OTHER -> /\ r.exc = "config" \/ (r.exc = "none" /\ r.err)
                      /\ r.rep.has /\ Names(r.rep, pl)
                      /\ r.rep.line = r.rep.getline

Allowed(e) == CASE e.op = "load" -> LoadAllowed(e)
                [] OTHER -> FALSE       \* crash, hang

Init == t \in 1..Len(Traces) /\ l = 1
Next == /\ l > 0 /\ l <= Len(Traces[t].ev) /\ t' = t
        /\ IF Allowed(Ev) THEN l' = l + 1
           ELSE PrintT(<<"REJECT", Traces[t].id, l>>) /\ l' = -1
Spec == Init /\ [][Next]_vars
=============================================================================
