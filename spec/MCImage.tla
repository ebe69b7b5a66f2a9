------------------------------ MODULE MCImage ------------------------------
(* The colour function: end points, monotonicity between two colours, continuity to within one step,
   independence of the unit; every small image is emitted for the implementation. *)
EXTENDS Image, Json, TLC
CONSTANTS W, V
VS == -12..24
VARIABLES cs, a, b, v, img
vars == <<cs, a, b, v, img>>
Maps == {Gray, Geri, <<<<7, 7, 7>>>>, <<<<255, 0, 9>>, <<0, 255, 9>>, <<1, 2, 3>>>>}
Init == /\ cs \in Maps /\ a \in -2..2 /\ b \in {a + w : w \in W} /\ v \in V
        /\ img \in {[rows |-> r, cols |-> c] : r \in 1..3, c \in 1..3}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
C(x) == Colour(cs, a, b, x)
Ends == C(a) = cs[1] /\ C(b) = cs[Len(cs)] /\ (v <= a => C(v) = cs[1]) /\ (v >= b => C(v) = cs[Len(cs)])
InGamut == \A k \in 1..3 : C(v)[k] \in 0..255
Stops == \A j \in 1..Len(cs) : ((b - a) * (j - 1)) % (IF Len(cs) = 1 THEN 1 ELSE Len(cs) - 1) = 0 /\ Len(cs) > 1 => C(a + ((b - a) * (j - 1)) \div (Len(cs) - 1)) = cs[j]
Units == \A k \in {2, 8} : Colour(cs, k*a, k*b, k*v) = C(v)
GrayMono == cs = Gray => \A k \in 1..3 : C(v)[k] <= C(v+1)[k]
Emitted == (cs \in {Gray, Geri} /\ a = 0 /\ b = 8 /\ v = 0) => PrintT("EMIT " \o ToJson(img))
=============================================================================
