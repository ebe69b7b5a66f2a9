----------------------------- MODULE MCEquilibrium -----------------------------
(* Angles and interpolation are those of the plane: for all small points and tables. The model also lists the ways
   in which one thing can be wrong with a file, for the code to be given. *)
EXTENDS Equilibrium, Json
CONSTANT K
VARIABLES x, y, n
Init == x \in -3..3 /\ y \in -3..3 /\ n \in 1..K
Next == UNCHANGED <<x, y, n>>
Spec == Init /\ [][Next]_<<x, y, n>>
a == Angle(x, y)
Turn == x # 0 \/ y # 0 => Known(a) /\ Angle(-y, x) = IF Le(I(6), a) THEN Sub(a, I(6)) ELSE Add(a, I(2))
Mirror == y # 0 => Add(a, Angle(x, -y)) = I(8)
Ranged == Le(I(0), a) /\ ~Le(I(8), a)
Scaled == \A k \in 2..3 : Angle(k*x, k*y) = a
Ccw == \A p \in {<<1, 0>>, <<2, 1>>, <<1, 1>>, <<1, 2>>, <<0, 1>>, <<-1, 1>>, <<-1, -1>>, <<1, -1>>} :
        LET b == Angle(p[1], p[2])  c == x*p[2] - y*p[1]  d == Sub(b, a) IN
        c > 0 <=> ((x # 0 \/ y # 0) /\ (IF d[1] > 0 THEN ~Le(I(4), d) ELSE d[1] # 0 /\ ~Le(I(-4), d)))
(* tables that are linear in the flux, or in the angle, are reproduced; the axis of the table is too *)
V == [psi |-> <<0, n, n+1, 2*n+2>>, theta |-> <<0, 1, 3, 4, 8>>]
Lin(c, p, t) == [j \in 1..5 |-> [i \in 1..4 |-> c + p*Abs(V.psi[i]) + t*V.theta[j]]]
Linear == \A c \in {1}, p \in {-2, 0, 1}, t \in {-1, 0, 2} : \A q \in {0, 1, 3, 6} :
    Value(V, Lin(c, p, t), Rat(q, 4), a) = Add3(I(c), Mul(I(p*(2*n+2)), Rat(q, 4)), Mul(I(t), a))
Nodes == \A i \in 1..4, j \in 1..4 : Value(V, [k \in 1..5 |-> [m \in 1..4 |-> 10*k + m*m]], Level(V, i), I(V.theta[j])) = I(10*j + i*i)
Between == LET T == [k \in 1..5 |-> [m \in 1..4 |-> (k*m*7) % 5]]  z == Value(V, T, Rat((n*3) % 5, 4), a) IN Le(I(0), z) /\ Le(z, I(4))
Faults == {<<"missing", k>> : k \in Needed} \cup {<<"shape", k, w>> : k \in {"xypsin", "ptBx", "ptBy", "ptBPHI", "ptx", "pty"}, w \in {"row", "col", "more", "turned"}}
          \cup {<<"order", k>> : k \in {"x", "y", "psi", "theta"}} \cup {<<"short", k>> : k \in {"x", "y", "psi", "theta"}} \cup {<<"zero">>, <<"level">>}
Emitted == x = 0 /\ y = 0 /\ n = 1 => PrintT("EMIT " \o ToJson(Faults))
=============================================================================
