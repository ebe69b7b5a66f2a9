------------------------------ MODULE Progress ------------------------------
(* The progress tracker. n items are divided into np groups, as equal as possible and the larger ones
   first; mark k belongs to the last item of group k. A report of item number i prints the next
   outstanding mark if i has reached it; reports take effect one at a time. *)
EXTENDS Integers, Sequences, FiniteSets
Min2(a, b) == IF a < b THEN a ELSE b
Thr(n, np, k) == k * (n \div np) + Min2(k, n % np)
(* state: k marks printed; pend: reports under way, as a function from threads to [i, printed] *)
Fresh == [k |-> 0, pend |-> <<>>]
Pending(s) == DOMAIN s.pend
Due(n, np, s, i) == np > 0 /\ i >= Thr(n, np, s.k + 1)
CanStart(s, t) == t \notin Pending(s)
Start(s, t, i) == [s EXCEPT !.pend = [x \in Pending(s) \cup {t} |-> IF x = t THEN [i |-> i, printed |-> FALSE] ELSE s.pend[x]]]
CanPrint(n, np, s, t) == t \in Pending(s) /\ ~s.pend[t].printed /\ Due(n, np, s, s.pend[t].i)
Print(s, t) == [s EXCEPT !.k = @ + 1, !.pend[t].printed = TRUE]
(* a report that printed nothing was not due when it took effect; other reports under way may have taken effect without having printed yet *)
CanEnd(n, np, s, t) == /\ t \in Pending(s)
                       /\ s.pend[t].printed \/ np <= 0
                          \/ s.pend[t].i < Thr(n, np, s.k + 1 + Cardinality({x \in Pending(s) \ {t} : ~s.pend[x].printed}))
End(s, t) == [s EXCEPT !.pend = [x \in Pending(s) \ {t} |-> s.pend[x]]]
------------------------------------------------------------------------------
RECURSIVE LogOk(_, _, _, _, _)
LogOk(n, np, s, log, j) ==
    IF j > Len(log) THEN s.pend = <<>>
    ELSE LET e == log[j] IN
        CASE e.op = "start" -> CanStart(s, e.t) /\ LogOk(n, np, Start(s, e.t, e.i), log, j + 1)
          [] e.op = "print" -> e.of = np /\ e.k = s.k + 1 /\ CanPrint(n, np, s, e.t) /\ LogOk(n, np, Print(s, e.t), log, j + 1)
          [] e.op = "end"   -> CanEnd(n, np, s, e.t) /\ LogOk(n, np, End(s, e.t), log, j + 1)
          [] OTHER -> FALSE
=============================================================================
