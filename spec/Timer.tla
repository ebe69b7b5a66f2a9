------------------------------- MODULE Timer -------------------------------
(* Timers on a clock, and the text forms of elapsed times. A time or duration is <<seconds,
   nanoseconds>> with 0 <= nanoseconds < 10^9. *)
EXTENDS Integers, Sequences, TLC
NS == 1000000000
Zero == <<0, 0>>
Add(a, b) == LET x == a[2] + b[2] IN IF x >= NS THEN <<a[1] + b[1] + 1, x - NS>> ELSE <<a[1] + b[1], x>>
Sub(a, b) == LET x == a[2] - b[2] IN IF x < 0 THEN <<a[1] - b[1] - 1, x + NS>> ELSE <<a[1] - b[1], x>>
NoTimer == [live |-> FALSE]
New(now) == [live |-> TRUE, run |-> TRUE, acc |-> Zero, since |-> now, pure |-> TRUE]
(* what the timer shows: the finished stretches plus the running one *)
Elapsed(t, now) == IF t.run THEN Add(t.acc, Sub(now, t.since)) ELSE t.acc
Stop(t, now) == IF t.run THEN [t EXCEPT !.run = FALSE, !.acc = Elapsed(t, now), !.pure = FALSE] ELSE t
Cont(t, now) == [t EXCEPT !.run = TRUE, !.since = now, !.pure = FALSE]      \* of a stopped timer
------------------------------------------------------------------------------
Days(d) == d[1] \div 86400
Hours(d) == (d[1] % 86400) \div 3600
Minutes(d) == (d[1] % 3600) \div 60
Seconds(d) == d[1] % 60
Millis(d) == d[2] \div 1000000
Micros(d) == (d[2] \div 1000) % 1000
Part(v, name) == IF v > 0 THEN ToString(v) \o " " \o name \o ", " ELSE ""
Text(d) == Part(Days(d), "days") \o Part(Hours(d), "hours") \o Part(Minutes(d), "minutes") \o Part(Seconds(d), "seconds")
           \o Part(Millis(d), "milliseconds") \o ToString(Micros(d)) \o " microseconds"
ReadOk(d, r) == /\ r.days = Days(d) /\ r.hours = Hours(d) /\ r.minutes = Minutes(d) /\ r.seconds = Seconds(d) /\ r.ms = Millis(d) /\ r.us = Micros(d)
                /\ r.tp = <<d[1], d[2] \div 1000>> /\ r.tsec = d[1]
                /\ \A i \in 1..2 : r.gms[i] = <<d[1], Millis(d)>> /\ r.gus[i] = <<d[1], d[2] \div 1000>> /\ r.text[i] = Text(d)
------------------------------------------------------------------------------
(* the short form used for progress: largest unit u (1 days, 2 hours, 3 minutes, 4 seconds, 5 milliseconds);
   two digits after a larger unit; milliseconds only below ten seconds *)
P2(v, lead) == IF lead /\ v < 10 THEN "0" \o ToString(v) ELSE ToString(v)
P3(v) == IF v < 10 THEN "00" \o ToString(v) ELSE IF v < 100 THEN "0" \o ToString(v) ELSE ToString(v)
Short(s, ms, u) ==
    LET dd == IF u <= 1 THEN s \div 86400 ELSE 0   r1 == s - 86400*dd
        hh == IF u <= 2 THEN r1 \div 3600 ELSE 0   r2 == r1 - 3600*hh
        mm == IF u <= 3 THEN r2 \div 60 ELSE 0     ss == r2 - 60*mm
        h == dd > 0   m == h \/ hh > 0   x == m \/ mm > 0
    IN IF u = 5 THEN {ToString(1000*s + ms) \o "ms"}
       ELSE IF s = 0 /\ ms = 0 THEN {"0ms", "0s"}
       ELSE {(IF dd > 0 THEN ToString(dd) \o "d" ELSE "") \o (IF m THEN P2(hh, h) \o "h" ELSE "") \o (IF x THEN P2(mm, m) \o "m" ELSE "")
             \o (IF x \/ ss > 0 THEN P2(ss, x) \o "s" ELSE "")
             \o (IF ~x /\ ss < 10 THEN (IF ss > 0 THEN P3(ms) ELSE ToString(ms)) \o "ms" ELSE "")}
------------------------------------------------------------------------------
(* state: [now, tm: sequence of timers] *)
Pre(st, e) == CASE e.op \in {"adv", "fmt"} -> TRUE
                [] e.op = "new" -> ~st.tm[e.t].live
                [] e.op = "cont" -> st.tm[e.t].live /\ ~st.tm[e.t].run
                [] e.op \in {"copy", "assign"} -> st.tm[e.t2].live /\ (e.op = "assign" => st.tm[e.t].live) /\ (e.op = "copy" => ~st.tm[e.t].live)
                [] e.op = "clock" -> st.tm[e.t].live /\ st.tm[e.t].pure
                [] OTHER -> st.tm[e.t].live
After(st, e) == CASE e.op = "adv" -> [st EXCEPT !.now = Add(@, e.d)]
                  [] e.op \in {"new", "reset"} -> [st EXCEPT !.tm[e.t] = New(st.now)]
                  [] e.op = "stop" -> [st EXCEPT !.tm[e.t] = Stop(@, st.now)]
                  [] e.op = "cont" -> [st EXCEPT !.tm[e.t] = Cont(@, st.now)]
                  [] e.op \in {"copy", "assign"} -> [st EXCEPT !.tm[e.t] = st.tm[e.t2]]
                  [] e.op = "destroy" -> [st EXCEPT !.tm[e.t] = NoTimer]
                  [] OTHER -> st
Allowed(st, e) == /\ Pre(st, e)
                  /\ CASE e.op = "read" -> ReadOk(Elapsed(st.tm[e.t], st.now), e.res)
                       [] e.op = "clock" -> e.res = st.tm[e.t].since
                       [] e.op = "fmt" -> \A i \in 1..Len(e.res) : e.res[i] \in Short(e.s, e.ms, IF e.unit = 0 THEN 2 ELSE e.unit)
                       [] e.op \in {"new", "adv", "reset", "stop", "cont", "copy", "assign", "destroy"} -> TRUE
                       [] OTHER -> FALSE
=============================================================================
