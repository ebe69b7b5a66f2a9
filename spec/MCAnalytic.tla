------------------------------ MODULE MCAnalytic ------------------------------
(* The formulas are those of a magnetic field: for all small parameters and points the divergence vanishes, the
   field is tangent to the flux surfaces, and the field lines wind around the axis q times as fast toroidally. *)
EXTENDS Analytic, Json
CONSTANT K
Base == [B0 |-> 2, Rm |-> 4, zm |-> 1, a |-> 5, sB |-> 1, sI |-> 1, qt |-> "const", p1 |-> I(1), p2 |-> I(1), name |-> "", desc |-> ""]
Models == {[Base EXCEPT !.qt = t, !.sB = sb, !.sI = si, !.p1 = a, !.p2 = b, !.Rm = rm] : t \in {"const", "lin", "quad", "cur"}, sb \in {-1, 1}, si \in {-1, 1}, a \in {I(1), Rat(3, 2)}, b \in {I(1), I(2), I(3)}, rm \in {4, 7}}
Xy == {<<3, 4, 5>>, <<-4, 3, 5>>, <<0, 2, 2>>, <<1, 0, 1>>, <<-7, 0, 7>>, <<0, -4, 4>>}
Whole(n) == IF \E k \in 0..20 : k*k = n THEN CHOOSE k \in 0..20 : k*k = n ELSE 0
Points(m) == {[x |-> c[1], y |-> c[2], R |-> c[3], z |-> z, s |-> Whole((c[3]-m.Rm)*(c[3]-m.Rm) + (z-m.zm)*(z-m.zm))] : c \in Xy, z \in -K..K}
VARIABLES m, p
Init == m \in Models /\ p \in Points(m)
Next == UNCHANGED <<m, p>>
Spec == Init /\ [][Next]_<<m, p>>
Ok == Possible(m, p)
q == Q(m, p)
w == W(m, p)
Solenoidal == Ok => LET J == Jac(m, p, q, w) IN Add3(J[1], J[5], J[9]) = I(0)
Tangent == Ok => LET b == Bc(m, p, q) IN Add(Mul(b[1], I(p.R - m.Rm)), Mul(b[3], I(p.z - m.zm))) = I(0)
(* B is perpendicular to the gradient of the flux *)
OnSurface == Ok => LET b == Bc(m, p, q)  d == DFlux(m, p, q, w) IN Add(Mul(b[1], d[1]), Mul(b[3], d[2])) = I(0)
Winding == Ok /\ (m.qt = "cur" => m.p2[1] < 3) /\ R2(m, p) # 0 => LET b == Bc(m, p, q) IN    \* (r B_phi / (Rm B_pol))^2 = q^2
    Mul(Rat(R2(m, p), m.Rm*m.Rm), Mul(b[2], b[2])) = Mul(Mul(q, q), Add(Mul(b[1], b[1]), Mul(b[3], b[3])))
Mirror == Ok => LET n == [m EXCEPT !.sB = -@, !.sI = -@]  b == Bxyz(m, p, q)  c == Bxyz(n, p, q) IN \A k \in 1..3 : c[k] = Neg(b[k])
(* the difference quotient of a rational function approaches the derivative: exact check on B_phi R = constant *)
Toroidal == Ok => LET b == Bc(m, p, q) IN Mul(b[2], I(p.R)) = I(m.sB*m.B0*m.Rm)
=============================================================================
