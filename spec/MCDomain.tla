------------------------------ MODULE MCDomain ------------------------------
(* Exhaustive check, on a small grid, that the decision procedures of Domain mean what they should:
   the answer does not depend on direction, orientation, starting corner or explicit closing of the
   polygon; a pair of points in general position with no crossing lies on the same side; for a convex
   boundary crossing from inside is the same as being outside; the line-of-sight test restricted to a
   plane through the axis agrees with the plane test; and replacing the boundary replaces all extents. *)
EXTENDS Domain, Json, TLC
CONSTANTS G, W, LX
WQ == {<<<<1,0>>,<<4,0>>,<<4,3>>,<<1,3>>>>, <<<<1,0>>,<<4,0>>,<<4,3>>,<<3,1>>,<<2,1>>,<<1,3>>>>, <<<<1,1>>,<<2,0>>,<<4,1>>,<<3,2>>,<<4,3>>,<<2,3>>>>, <<<<1,0>>,<<4,1>>,<<1,2>>,<<4,3>>,<<1,3>>>>, <<<<2,0>>,<<3,0>>,<<3,1>>,<<4,1>>,<<4,2>>,<<3,2>>,<<3,3>>,<<2,3>>,<<2,2>>,<<1,2>>,<<1,1>>,<<2,1>>>>}
LQ == {-3, 0, 4}
VARIABLES P, p, q, z1, x1, stage
vars == <<P, p, q, z1, x1, stage>>
Pts == {<<r, z>> : r \in 1..G, z \in 0..G-1}
Rev(S) == [i \in 1..Len(S) |-> S[Len(S) + 1 - i]]
Rot(S) == [i \in 1..Len(S) |-> S[Nxt(S, i)]]
Polys == {<<a, b, c>> : a \in Pts, b \in Pts, c \in Pts} \cup W
(* every boundary of the grid is handed to the implementation *)
Emitted == stage = 0 => PrintT("EMIT " \o ToJson(P))
Init == P \in Polys /\ p = <<1, 0>> /\ q = <<1, 0>> /\ z1 = 0 /\ x1 = <<0, 0>> /\ stage = 0
Next == \/ stage = 0 /\ stage' = 1 /\ p' \in Pts /\ q' \in Pts /\ UNCHANGED <<P, z1, x1>>
        \/ stage = 0 /\ stage' = 2 /\ p' \in Pts /\ z1' \in 0..G-1 /\ x1' \in {<<u, v>> : u \in LX, v \in LX} /\ UNCHANGED <<P, q>>
Spec == Init /\ [][Next]_vars
Forms(S) == {S, Rev(S), Rot(S), Append(S, S[1])}
Symmetric == stage = 1 => \A S \in Forms(P) : Cross(S, p, q, TRUE) = Cross(P, q, p, TRUE)
SameSide == stage = 1 /\ Cross(P, p, q, TRUE) = No => (Inside(P, p) = Inside(P, q))
ConvexTri == (stage = 1 /\ Len(P) = 3 /\ Orient(P[1], P[2], P[3]) # 0 /\ Inside(P, p) /\ ~OnBoundary(P, p) /\ ~OnBoundary(P, q))
             => /\ (Inside(P, q) => Cross(P, p, q, TRUE) = No)
                /\ (~Inside(P, q) => Cross(P, p, q, TRUE) \in {Yes, May})
Extents == stage = 1 => LET b == Bounds(P)  r == Range(P, 1, 2, p[2])
                        IN /\ \A S \in Forms(P) : Bounds(S) = b /\ Range(S, 1, 2, p[2]) = r
                           /\ b[1] <= b[2] /\ b[3] <= b[4]
                           /\ (r # <<>>) = (b[3] <= U*p[2] /\ U*p[2] <= b[4])
                           /\ r # <<>> => b[1] <= r[1] /\ r[1] <= r[2] /\ r[2] <= b[2]
                           /\ (Inside(P, p) /\ ~OnBoundary(P, p)) => r[1] < U*p[1] /\ U*p[1] < r[2]
(* a line in the half plane y = 0, x > 0 meets the surface where the segment meets the polygon *)
Planar == stage = 1 => LET s == Sight(P, <<0, 0>>, <<p[1], 0, p[2]>>, <<q[1], 0, q[2]>>, TRUE)  c == Cross(P, p, q, TRUE)
                       IN s = May \/ c = May \/ s = c
(* space: independent of direction, of the sense of rotation and of a quarter turn; parity of sides *)
A3 == <<p[1], 0, p[2]>>
B3 == <<x1[1], x1[2], z1>>
Turn(a) == <<-a[2], a[1], a[3]>>
Mirror(a) == <<a[1], -a[2], a[3]>>
Spatial == stage = 2 => LET s == Sight(P, <<2, 1>>, A3, B3, TRUE) w == Sight(P, <<2, 1>>, A3, B3, FALSE)
                        IN /\ \A S \in Forms(P) : Sight(S, <<2, 1>>, B3, A3, TRUE) = s
                           /\ Sight(P, <<2, 1>>, Turn(A3), Turn(B3), TRUE) = s /\ Sight(P, <<2, 1>>, Mirror(A3), Mirror(B3), TRUE) = s
                           /\ (w = Yes => s = Yes) /\ (s = No => w = No)
(* no hit: both ends on the same side, the side of a point in space being that of its distance from the axis (when that is a grid value) *)
IsR(a, r) == r * r = a[1]*a[1] + a[2]*a[2]
SameSide3 == stage = 2 /\ Sight(P, <<2, 1>>, A3, B3, TRUE) = No =>
             \A r \in 0..2*G : IsR(B3, r) => Inside(P, p) = Inside(P, <<r, z1>>)
=============================================================================
