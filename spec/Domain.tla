------------------------------- MODULE Domain -------------------------------
(* The boundary of the device: a closed polygon in the (R,Z) plane, and the surface it sweeps out
   around the axis of symmetry. Everything is decided exactly, in integer arithmetic, on a grid.
   An answer is one of Yes, No and May: May marks configurations that are not in general position
   (an end point on the boundary, a corner on the segment, tangency), where either is right. *)
EXTENDS Integers, Sequences, FiniteSets
Yes == "yes"
No == "no"
May == "may"
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
AnyOf(S) == IF Yes \in S THEN Yes ELSE IF May \in S THEN May ELSE No
Nxt(P, i) == IF i = Len(P) THEN 1 ELSE i + 1
------------------------------------------------------------------------------
(* ---- the poloidal plane ---- *)
Orient(a, b, c) == Sgn((b[1]-a[1])*(c[2]-a[2]) - (b[2]-a[2])*(c[1]-a[1]))
BoxesApart(p, q, a, b) == \E k \in 1..2 : Max2(p[k], q[k]) < Min2(a[k], b[k]) \/ Min2(p[k], q[k]) > Max2(a[k], b[k])
(* does the segment p-q meet the segment a-b? (sure: the coordinates are known to be exact) *)
Meets(p, q, a, b, sure) ==
    LET o1 == Orient(p, q, a)  o2 == Orient(p, q, b)  o3 == Orient(a, b, p)  o4 == Orient(a, b, q)
    IN IF o1 * o2 > 0 \/ o3 * o4 > 0 THEN No
       ELSE IF o1 * o2 < 0 /\ o3 * o4 < 0 THEN Yes
       ELSE IF o1 = 0 /\ o2 = 0 /\ o3 = 0 /\ o4 = 0
            THEN (IF BoxesApart(p, q, a, b) /\ (sure \/ a[1] = b[1] \/ a[2] = b[2]) THEN No ELSE May)
       ELSE May
Cross(P, p, q, sure) == AnyOf({Meets(p, q, P[i], P[Nxt(P, i)], sure) : i \in 1..Len(P)})
(* inside, by the number of crossings of a ray (used only to state what Cross must mean) *)
RayHits(P, p) == Cardinality({i \in 1..Len(P) :
    LET a == P[i]  b == P[Nxt(P, i)]
    IN /\ (a[2] > p[2]) # (b[2] > p[2])
       /\ LET d == b[2] - a[2]  lhs == (p[1] - a[1]) * d  rhs == (p[2] - a[2]) * (b[1] - a[1])
          IN IF d > 0 THEN lhs < rhs ELSE lhs > rhs})
Inside(P, p) == RayHits(P, p) % 2 = 1
OnBoundary(P, p) == \E i \in 1..Len(P) : LET a == P[i]  b == P[Nxt(P, i)] IN Orient(a, b, p) = 0 /\ ~BoxesApart(p, p, a, b)
------------------------------------------------------------------------------
(* ---- extents; lengths in units of 1/U of the grid ---- *)
U == 840
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
Col(P, k) == {P[i][k] : i \in 1..Len(P)}
Bounds(P) == <<U*SetMin(Col(P, 1)), U*SetMax(Col(P, 1)), U*SetMin(Col(P, 2)), U*SetMax(Col(P, 2))>>
(* all values of coordinate x (1 or 2) where the polygon meets coordinate y = a *)
Level(P, x, y, a) == UNION {
    LET s == P[i]  e == P[Nxt(P, i)]
    IN IF Min2(s[y], e[y]) > a \/ Max2(s[y], e[y]) < a THEN {}
       ELSE IF s[y] = e[y] THEN {U*s[x], U*e[x]}
       ELSE {U*s[x] + ((U*(a - s[y])) \div Abs(e[y] - s[y])) * Sgn(e[y] - s[y]) * (e[x] - s[x])}
    : i \in 1..Len(P)}
Range(P, x, y, a) == LET S == Level(P, x, y, a) IN IF S = {} THEN <<>> ELSE <<SetMin(S), SetMax(S)>>
------------------------------------------------------------------------------
(* ---- lines of sight: the segment p-q in space and the surface swept by the segment a-b ---- *)
Sq(x) == x * x
(* sign of A t^2 + 2 B t + C at t = n/d, d > 0 *)
QSgn(A, B, C, n, d) == Sgn(A*n*n + 2*B*n*d + C*d*d)
(* has it a root strictly between n1/d and n2/d (n1 < n2)? *)
RootIn(A, B, C, n1, n2, d) ==
    LET s1 == QSgn(A, B, C, n1, d)  s2 == QSgn(A, B, C, n2, d)  D == B*B - A*C
    IN IF s1 = 0 \/ s2 = 0 THEN May
       ELSE IF s1 # s2 THEN Yes
       ELSE IF A = 0 \/ Sgn(A) # s1 THEN No
       ELSE LET v == -B * Sgn(A)  g == Abs(A)      \* the vertex is at v/g
            IN IF v * d <= n1 * g \/ v * d >= n2 * g THEN No
               ELSE IF D > 0 THEN Yes ELSE IF D = 0 THEN May ELSE No
Flat(p, q, a, b) ==      \* a-b horizontal
    LET dz == q[3] - p[3]  n == (a[2] - p[3]) * Sgn(dz)  d == Abs(dz)
        lo == Sq(Min2(a[1], b[1]) * d)  hi == Sq(Max2(a[1], b[1]) * d)
        rho == Sq(p[1]*d + n*(q[1]-p[1])) + Sq(p[2]*d + n*(q[2]-p[2]))
    IN IF dz = 0 THEN (IF p[3] = a[2] THEN May ELSE No)
       ELSE IF n < 0 \/ n > d \/ rho < lo \/ rho > hi THEN No
       ELSE IF n = 0 \/ n = d \/ rho = lo \/ rho = hi THEN May ELSE Yes
Slanted(p, q, a, b) ==
    LET e == b[2] - a[2]  dx == b[1] - a[1]  dz == q[3] - p[3]
        u == q[1] - p[1]  v == q[2] - p[2]
        m == a[1]*e + (p[3]-a[2])*dx  c == dz*dx
        A == e*e*(u*u + v*v) - c*c
        B == e*e*(u*p[1] + v*p[2]) - c*m
        C == e*e*(Sq(p[1]) + Sq(p[2])) - m*m
    IN IF dz = 0
       THEN IF (p[3]-a[2]) * (p[3]-b[2]) > 0 THEN No
            ELSE LET r == RootIn(A, B, C, 0, 1, 1) IN IF (p[3]-a[2]) * (p[3]-b[2]) = 0 /\ r = Yes THEN May ELSE r
       ELSE LET d == Abs(dz)  x == (a[2]-p[3])*Sgn(dz)  y == (b[2]-p[3])*Sgn(dz)
                lo == Max2(0, Min2(x, y))  hi == Min2(d, Max2(x, y))
            IN IF lo > hi THEN No ELSE IF lo = hi THEN (IF QSgn(A, B, C, lo, d) = 0 THEN May ELSE No)
               ELSE RootIn(A, B, C, lo, hi, d)
Tile(p, q, a, b) == IF a = b THEN No ELSE IF a[2] = b[2] THEN Flat(p, q, a, b) ELSE Slanted(p, q, a, b)
(* without outer wall the tiles lying entirely outside the magnetic axis are transparent *)
Sight(P, ax, p, q, wall) == AnyOf({Tile(p, q, P[i], P[Nxt(P, i)]) :
    i \in {j \in 1..Len(P) : wall \/ P[j][1] <= ax[1] \/ P[Nxt(P, j)][1] <= ax[1]}})
------------------------------------------------------------------------------
(* ---- the object: which boundary is set, and what each query may answer ---- *)
Fits(want, got) == want = got \/ (want = May /\ got \in {Yes, No})
Allowed(st, e) ==
    CASE e.op = "set"    -> e.res = "ok"
      [] e.op = "cross"  -> LET w == Cross(st.P, e.p, e.q, e.sure) IN \A i \in 1..Len(e.res) : Fits(w, e.res[i])
      [] e.op = "inside" -> LET w == Cross(st.P, st.ax, e.q, e.sure) IN \A i \in 1..Len(e.res) : Fits(w, e.res[i])
      [] e.op = "bounds" -> e.res = Bounds(st.P)
      [] e.op = "radius" -> e.res = Range(st.P, 1, 2, st.ax[2])
      [] e.op = "maxz"   -> e.res = Range(st.P, 2, 1, e.at)
      [] e.op = "minmax" -> e.res = Range(st.P, 1, 2, e.at)
      [] e.op = "getters" -> /\ e.res = [i \in 1..Len(st.P) |-> <<U*st.P[i][1], U*st.P[i][2]>>]
                             /\ e.axis = <<U*st.ax[1], U*st.ax[2], U*st.ax[1], U*st.ax[2]>>
      [] e.op = "los"    -> LET w == Sight(st.P, st.ax, e.p, e.q, e.wall) IN \A i \in 1..Len(e.res) : Fits(w, e.res[i])
      [] OTHER -> FALSE
After(st, e) == IF e.op = "set" THEN [P |-> e.poly, ax |-> e.ax] ELSE st
=============================================================================
