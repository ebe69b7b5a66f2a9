---------------------------------- MODULE Rat ----------------------------------
(* Rational numbers <<numerator, denominator>>, always in lowest terms with a positive denominator, for an
   evaluator whose integers are limited: what would not fit is Unknown, and so is whatever depends on it. *)
EXTENDS Integers
Unknown == <<0, 0>>
MaxInt == 2147483647
LOCAL A(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Small(a, b) == a = 0 \/ b = 0 \/ A(a) <= MaxInt \div A(b)          \* a*b fits
Rat(n, d) == IF d = 0 THEN Unknown ELSE LET g == Gcd(A(n), A(d))  s == IF d < 0 THEN -1 ELSE 1 IN <<(s*n) \div g, (s*d) \div g>>
I(n) == <<n, 1>>
Known(x) == x[2] # 0
Mul(x, y) ==         \* cross-cancelled first, to stay small
    IF ~Known(x) \/ ~Known(y) THEN Unknown ELSE
    LET g == Gcd(A(x[1]), y[2])  h == Gcd(A(y[1]), x[2])
        a == x[1] \div g  b == y[1] \div h  c == x[2] \div h  d == y[2] \div g
    IN IF Small(a, b) /\ Small(c, d) THEN <<a*b, c*d>> ELSE Unknown
Add(x, y) ==
    IF ~Known(x) \/ ~Known(y) THEN Unknown ELSE
    LET g == Gcd(x[2], y[2])  a == y[2] \div g  b == x[2] \div g
    IN IF a < 1000000000 /\ b < 1000000000 /\ Small(2*a, x[1]) /\ Small(2*b, y[1]) /\ Small(x[2], a) THEN Rat(x[1]*a + y[1]*b, x[2]*a) ELSE Unknown
Neg(x) == <<-x[1], x[2]>>
Sub(x, y) == Add(x, Neg(y))
Inv(x) == IF x[1] < 0 THEN <<-x[2], -x[1]>> ELSE <<x[2], x[1]>>     \* (of zero: Unknown)
Div(x, y) == IF y[1] = 0 THEN Unknown ELSE Mul(x, Inv(y))
Add3(x, y, z) == Add(Add(x, y), z)
Mul3(x, y, z) == Mul(Mul(x, y), z)
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN I(1) ELSE Mul(x, Pow(x, n-1))
(* is v the number in millionths? *)
RECURSIVE Digits(_, _, _)
Digits(rem, d, k) == IF k = 0 THEN 0 ELSE ((rem*10) \div d) * (CASE k = 6 -> 100000 [] k = 5 -> 10000 [] k = 4 -> 1000 [] k = 3 -> 100 [] k = 2 -> 10 [] OTHER -> 1) + Digits((rem*10) % d, d, k-1)
Decides(x) == Known(x) /\ x[2] < 200000000 /\ x[1] \div x[2] \in -2000..1999
Millionths(x) == (x[1] \div x[2]) * 1000000 + Digits(x[1] % x[2], x[2], 6)
Near(x, v) == Decides(x) => LET m == Millionths(x) IN v \in (m-1)..(m+2)
=============================================================================
