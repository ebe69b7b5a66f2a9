--------------------------------- MODULE Closed ---------------------------------
(* Momentum distributions in closed form, by their logarithms. Parameters and points are rational numbers for which the
   exponents are rational; the logarithms of the prefactors follow from those of the primes, given in millionths.
     "exp":    exp(C |xi|)
     "connor": exp(-D p (1-xi^2)/|xi|) / (p |xi|), D = (E+1)/(2(Z+1)), from pMax on times exp(-((p-pMax)/width)^2)
     "aval":   m c A / (2 pi g0 p^2) exp(-g/g0 - A (1-|xi|)) / (1 - exp(-2A)), g = sqrt(p^2+1), A = (E+1)/(Z+1) g,
               g0 = lnLambda sqrt(Z+5)     (in units of m c / 2 pi) *)
EXTENDS Integers, Sequences, FiniteSets, Rat, TLC
Million == 1000000
Primes == <<2, 3, 5, 7, 11, 13>>
LnPrime == <<693147, 1098612, 1609438, 1945910, 2397895, 2564949>>
RECURSIVE LnFrom(_, _)
LnFrom(n, k) == IF n = 1 THEN <<TRUE, 0>> ELSE IF k > 6 THEN <<FALSE, 0>>
    ELSE IF n % Primes[k] = 0 THEN LET r == LnFrom(n \div Primes[k], k) IN <<r[1], r[2] + LnPrime[k]>> ELSE LnFrom(n, k + 1)
Ln(x) == LET a == LnFrom(x[1], 1)  b == LnFrom(x[2], 1) IN IF Known(x) /\ x[1] > 0 THEN <<a[1] /\ b[1], a[2] - b[2]>> ELSE <<FALSE, 0>>     \* <<known, millionths>>
(* ln(1 - exp(-n)) for whole n *)
LnRest == <<-458675, -145413, -51069, -18485, -6761, -2482, -912, -336, -123, -45, -17, -6, -2, -1>>
Rest(x) == IF Known(x) /\ x[2] = 1 /\ x[1] > 0 THEN <<TRUE, IF x[1] > 14 THEN 0 ELSE LnRest[x[1]]>> ELSE <<FALSE, 0>>
(* square roots of squares of small rationals *)
Root(n) == IF \E k \in 0..60 : k*k = n THEN CHOOSE k \in 0..60 : k*k = n ELSE -1
Sqrt(x) == IF ~Known(x) \/ x[1] < 0 THEN Unknown ELSE IF Root(x[1]) < 0 \/ Root(x[2]) < 0 THEN Unknown ELSE Rat(Root(x[1]), Root(x[2]))
AbsR(x) == <<IF x[1] < 0 THEN -x[1] ELSE x[1], x[2]>>
Ge(x, y) == x[1]*y[2] >= y[1]*x[2]
One == I(1)
------------------------------------------------------------------------------
R2(l) == Rat(l[1], l[2])            \* (rationals come as pairs)
(* <<exponent, logarithm of the prefactor>>: the logarithm of the distribution is their sum *)
Slope(m) == Div(Add(m.E, One), Add(m.Z, One))
Gam(p) == Sqrt(Add(Mul(p, p), One))
Parts(m, p, xi) ==
    LET x == AbsR(xi) IN
    CASE m.k = "exp" -> <<Mul(m.C, x), <<TRUE, 0>>>>
      [] m.k = "connor" ->
            LET e == Neg(Div(Mul3(Mul(Slope(m), Rat(1, 2)), p, Sub(One, Mul(x, x))), x))
                d == Div(Sub(p, m.pm), m.w)
                l == Ln(Mul(p, x))
            IN <<IF m.w[1] = 0 \/ ~Ge(p, m.pm) THEN e ELSE Sub(e, Mul(d, d)), <<l[1], -l[2]>>>>
      [] m.k = "aval" ->
            LET g == Gam(p)  a == Mul(Slope(m), g)  g0 == Mul(m.L, Sqrt(Add(m.Z, I(5))))
                l == Ln(Div(a, Mul3(g0, p, p)))  r == Rest(Mul(I(2), a))
            IN <<Sub(Neg(Div(g, g0)), Mul(a, Sub(One, x))), <<l[1] /\ r[1], l[2] - r[2]>>>>
Tol == 12
Agrees(m, p, xi, v) == LET q == Parts(m, p, xi) IN Decides(q[1]) /\ q[2][1] => v - (Millionths(q[1]) + q[2][2]) \in -Tol..Tol
(* between two pitches at the same momentum the prefactor of the avalanche form cancels *)
Relates(m, p, xi, v, w) == LET d == Sub(Parts(m, p, xi)[1], Parts(m, p, One)[1]) IN m.k = "aval" /\ Decides(d) => v - w - Millionths(d) \in -Tol..Tol
------------------------------------------------------------------------------
Model(e) == [k |-> e.kind, C |-> R2(e.C), E |-> R2(e.E), Z |-> R2(e.Z), pm |-> R2(e.pm), w |-> R2(e.w), L |-> R2(e.L)]
Allowed(s, e) ==
    CASE e.op = "new" -> e.ret = "ok"
      [] e.id \notin DOMAIN s -> e.ret = "gone"
      [] e.op \in {"init", "clone", "del"} -> e.ret = "ok"
      [] e.op = "eval" -> LET m == s[e.id]  p == R2(e.p)  x == R2(e.xi) IN
            e.ret = "ok" /\ Agrees(m, p, x, e.val) /\ Agrees(m, p, One, e.top) /\ Relates(m, p, x, e.val, e.top) /\ e.mirror - e.val \in -1..1
      [] OTHER -> FALSE
Drop(h, k) == [j \in DOMAIN h \ {k} |-> h[j]]
After(s, e) ==
    CASE e.op \in {"new", "init"} /\ e.ret = "ok" -> (e.id :> Model(e)) @@ s
      [] e.op = "clone" /\ e.ret = "ok" -> (e.to :> s[e.id]) @@ s
      [] e.op = "del" /\ e.ret = "ok" -> Drop(s, e.id)
      [] OTHER -> s
=============================================================================
