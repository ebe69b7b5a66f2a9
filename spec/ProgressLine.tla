---------------------------- MODULE ProgressLine ----------------------------
(* What a progress line tells. The tracker is made at time 0; mark k of np is printed by a report at
   time now. The line shows the time since the tracker was made, the time since the mark before
   (or the making), and on request how long the marks still to come will take: as long as the last
   one each or, if the last one took longer than the one before, each that much longer than the one
   before it. Times are in milliseconds, whole ones shown. *)
EXTENDS Progress, TLC
T == INSTANCE Timer
(* state: [k marks printed, now, last: time of the last mark, prev: length of the stretch before it (-1: none), sub: microseconds past now and past last] *)
Start0 == [k |-> 0, now |-> 0, last |-> 0, prev |-> -1, us |-> 0, lus |-> 0]
Adv(s, ms, us) == LET u == s.us + us IN [s EXCEPT !.now = @ + ms + u \div 1000, !.us = u % 1000]
Stretch(s) == IF s.us < s.lus THEN s.now - s.last - 1 ELSE s.now - s.last
ToGo(np, s) == LET N == np - (s.k + 1)  dt == Stretch(s) IN
               N*dt + (IF s.prev >= 0 /\ dt > s.prev THEN ((N*(N + 1)) \div 2)*(dt - s.prev) ELSE 0)
Marked(s) == [s EXCEPT !.k = @ + 1, !.prev = Stretch(s), !.last = s.now, !.lus = s.us]
Shown(ms) == T!Short(ms \div 1000, ms % 1000, 2)
LineOk(np, s, est, colors, r) ==
    /\ r.k = s.k + 1 /\ r.of = np /\ r.esc = colors
    /\ Len(r.times) = (IF est THEN 4 ELSE 2)
    /\ r.times[1] \in Shown(s.now) /\ r.times[2] \in Shown(Stretch(s))
    /\ est => r.times[3] \in Shown(ToGo(np, s)) /\ r.times[4] \in Shown(ToGo(np, s) + s.now)
(* a report of item i after ms, us: at most one line *)
Report(n, np, s, est, colors, i, lines) ==
    IF Due(n, np, [k |-> s.k], i) THEN Len(lines) = 1 /\ LineOk(np, s, est, colors, lines[1]) ELSE lines = <<>>
AfterReport(n, np, s, i) == IF Due(n, np, [k |-> s.k], i) THEN Marked(s) ELSE s
=============================================================================
