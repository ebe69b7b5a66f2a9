-------------------------------- MODULE MCClosed --------------------------------
(* The tables and formulas are those of logarithms and exponentials: addition, bounds of the logarithm, symmetry
   in the pitch, decay with the pitch, continuity of the cut-off. *)
EXTENDS Closed
CONSTANT K
VARIABLES n, d
Init == n \in 1..K /\ d \in 1..K
Next == UNCHANGED <<n, d>>
Spec == Init /\ [][Next]_<<n, d>>
x == Rat(n, d)
Additive == \A k \in 1..K : LET a == Ln(x)  b == Ln(I(k))  c == Ln(Mul(x, I(k))) IN a[1] /\ b[1] => c[1] /\ c[2] = a[2] + b[2]
Bounded == LET l == Ln(Rat(n + 1, n)) IN l[1] => l[2] - Million \div n <= 4 /\ l[2] - Million \div (n + 1) >= -4      \* 1/(n+1) < ln(1+1/n) < 1/n
Falling == \A k \in 1..13 : LnRest[k] < LnRest[k+1] /\ 2*LnRest[k+1] >= LnRest[k] - 1
Base == [k |-> "aval", C |-> I(2), E |-> I(3), Z |-> I(4), pm |-> Rat(1, 2), w |-> Rat(1, 4), L |-> I(10)]
Ms == {Base, [Base EXCEPT !.k = "connor"], [Base EXCEPT !.k = "exp"], [Base EXCEPT !.k = "connor", !.w = I(0)]}
P == Rat(3, 4)
Even == n <= d => \A m \in Ms : Parts(m, P, x) = Parts(m, P, Neg(x))
Decay == n <= d => \A m \in Ms : LET e == Parts(m, P, x)[1]  t == Parts(m, P, One)[1] IN Known(e) /\ Ge(t, e)
Cut == n <= d => \A m \in Ms : m.k = "connor" => Parts(m, m.pm, x) = Parts([m EXCEPT !.w = I(0)], m.pm, x)     \* continuous where it begins
Energy == Gam(Rat(3, 4)) = Rat(5, 4) /\ Gam(Rat(12, 5)) = Rat(13, 5)
=============================================================================
