---------------------------- MODULE MCProgressLine ---------------------------
(* The estimate is exact whenever stretches keep their length or grow by a constant amount. *)
EXTENDS ProgressLine
CONSTANTS MaxN, MaxD
VARIABLES np, d, g, s, done
vars == <<np, d, g, s, done>>
Len1(k) == d + (k - 1)*g                    \* length of stretch k
Init == np \in 1..MaxN /\ d \in 0..MaxD /\ g \in 0..MaxD /\ s = Start0 /\ done = FALSE
Next == /\ s.k < np
        /\ s' = Marked(Adv(s, Len1(s.k + 1), 0)) /\ done' = (s.k + 1 = np)
        /\ UNCHANGED <<np, d, g>>
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_, _)
Sum(a, b) == IF a > b THEN 0 ELSE Len1(a) + Sum(a + 1, b)
(* looking ahead: what would be shown at the next mark *)
Exact == s.k < np => LET x == Adv(s, Len1(s.k + 1), 0) IN
            /\ Stretch(x) = Len1(s.k + 1)
            /\ (g = 0 \/ s.k >= 1) => ToGo(np, x) = Sum(s.k + 2, np)
            /\ (g = 0 \/ s.k >= 1) => x.now + ToGo(np, x) = Sum(1, np)
AtEnd == done => s.now = Sum(1, np) /\ s.k = np
=============================================================================
