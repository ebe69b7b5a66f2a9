------------------------------ MODULE MCTimer ------------------------------
(* Every history of three timers, of bounded length, against an independent account: the set of
   instants at which each timer was running since its last reset. *)
EXTENDS Timer, Json
CONSTANTS Depth, Steps
VARIABLES st, ran, hist
vars == <<st, ran, hist>>
T == 1..3
Dur(k) == IF k = 1 THEN <<0, 999999999>> ELSE IF k = 2 THEN <<86399, 1>> ELSE <<3600, 0>>
Ops == {[op |-> o, t |-> t] : o \in {"new", "reset", "stop", "cont", "destroy", "read", "clock"}, t \in T}
       \cup {[op |-> "adv", d |-> Dur(k)] : k \in Steps} \cup {[op |-> o, t |-> 3, t2 |-> 1] : o \in {"copy", "assign"}}
Init == st = [now |-> Zero, tm |-> [i \in T |-> NoTimer]] /\ ran = [i \in T |-> Zero] /\ hist = <<>>
Do(e) == /\ Pre(st, e) /\ st' = After(st, e) /\ hist' = Append(hist, e)
         /\ ran' = CASE e.op = "adv" -> [i \in T |-> IF st.tm[i].live /\ st.tm[i].run THEN Add(ran[i], e.d) ELSE ran[i]]
                     [] e.op \in {"new", "reset"} -> [ran EXCEPT ![e.t] = Zero]
                     [] e.op \in {"copy", "assign"} -> [ran EXCEPT ![e.t] = ran[e.t2]]
                     [] OTHER -> ran
Next == Len(hist) < Depth /\ \E e \in Ops : Do(e)
Spec == Init /\ [][Next]_vars
Exact == \A i \in T : st.tm[i].live => Elapsed(st.tm[i], st.now) = ran[i]
Split == \A i \in T : LET d == ran[i] IN /\ Hours(d) \in 0..23 /\ Minutes(d) \in 0..59 /\ Seconds(d) \in 0..59 /\ Millis(d) \in 0..999 /\ Micros(d) \in 0..999
                                         /\ d[1] = ((Days(d)*24 + Hours(d))*60 + Minutes(d))*60 + Seconds(d) /\ d[2] \div 1000 = Millis(d)*1000 + Micros(d)
Emitted == Len(hist) = Depth => PrintT("EMIT " \o ToJson(hist))
=============================================================================
