----------------------------- MODULE MCAlgebra -----------------------------
(* The laws of linear algebra, over all small operands, and all small programs for the implementation. *)
EXTENDS Algebra, Json, TLC
CONSTANTS E, Kind
VARIABLES u, v, w, s
vars == <<u, v, w, s>>
Vec3 == {<<a, b, c>> : a \in E, b \in E, c \in E}
Mat2 == {<<<<a, b>>, <<c, d>>>> : a \in E, b \in E, c \in E, d \in E}
Init == /\ s \in E
        /\ IF Kind = "v" THEN u \in Vec3 /\ v \in Vec3 /\ w \in {<<1, -1, 0>>, <<2, 0, 1>>}
           ELSE u \in Mat2 /\ v \in Mat2 /\ w \in {<<<<1, 2>>, <<0, -1>>>>, <<<<0, 1>>, <<1, 1>>>>}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
VLaws == Kind = "v" => /\ VAdd(u, v) = VAdd(v, u) /\ VSub(u, v) = VAdd(u, VMul(v, -1)) /\ VDot(u, v) = VDot(v, u)
                       /\ VDot(VAdd(u, v), w) = VDot(u, w) + VDot(v, w) /\ VDot(VMul(u, s), v) = s * VDot(u, v)
                       /\ VCross(u, v) = VMul(VCross(v, u), -1) /\ VDot(VCross(u, v), u) = 0 /\ VDot(VCross(u, v), v) = 0 /\ VCross(u, u) = <<0, 0, 0>>
                       /\ VDot(VCross(u, v), VCross(u, v)) = VDot(u, u) * VDot(v, v) - VDot(u, v) * VDot(u, v)
                       /\ VDot(u, VCross(v, w)) = VDot(w, VCross(u, v))
                       /\ s # 0 => VDiv(VMul(u, s), s) = u
T2(A) == <<<<A[1][1], A[2][1]>>, <<A[1][2], A[2][2]>>>>
I2 == <<<<1, 0>>, <<0, 1>>>>
MLaws == Kind = "m" => /\ MMul(MMul(u, v), w) = MMul(u, MMul(v, w)) /\ MMul(u, MAdd(v, w)) = MAdd(MMul(u, v), MMul(u, w))
                       /\ MMul(u, I2) = u /\ MMul(I2, u) = u /\ T2(MMul(u, v)) = MMul(T2(v), T2(u))
                       /\ MMul(MScale(u, s), v) = MScale(MMul(u, v), s) /\ MSSub(s, u) = MAddS(MScale(u, -1), s)
                       /\ \A x \in {<<1, 0>>, <<0, 1>>, <<2, -1>>} : MVec(MMul(u, v), x) = MVec(u, MVec(v, x)) /\ VMat(x, u) = MVec(T2(u), x) /\ MMul(u, MOuter(x, x)) = MOuter(MVec(u, x), x)
=============================================================================
