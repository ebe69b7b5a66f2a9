------------------------------ MODULE MCMagnetic ------------------------------
(* All histories of creating, copying, saving, loading and destroying fields, up to a length: nothing of a
   field is lost or mixed up on the way, whatever the way. The histories are emitted and replayed. *)
EXTENDS Magnetic, Json
CONSTANT Depth
Ids == 1..3
Files == {"a.h5", "b.sdt"}
T(k) == [j \in 1..5 |-> [i \in 1..4 |-> k*i*i + j*(7-i)]]
L(a, b, c, d) == [j \in 1..5 |-> [i \in 1..4 |-> LET r == <<2, 3, 5, 6>>[i]  z == <<-2, -1, 0, 2, 3>>[j] IN a + b*r + c*z + d*r*z]]
Base == [name |-> "n", desc |-> "d", axis |-> <<3, 0>>, R |-> <<2, 3, 5, 6>>, Z |-> <<-2, -1, 0, 2, 3>>, br |-> T(1), bp |-> T(2), bz |-> T(-1), psi |-> None, sep |-> None, wall |-> None, lin |-> 0]
W == <<<<1, -3>>, <<7, -3>>, <<7, 4>>, <<1, 4>>>>
S == <<<<2, 0>>, <<3, -1>>, <<5, 0>>, <<3, 2>>, <<2, 0>>>>
Protos == << Finish([Base EXCEPT !.sep = S]),
             Finish([Base EXCEPT !.name = "w", !.wall = W, !.psi = T(3), !.br = L(1, 2, -1, 1), !.bp = L(0, 1, 0, 0), !.bz = L(-3, 0, 2, -1)]),
             Finish([Base EXCEPT !.desc = "both", !.wall = W, !.sep = S, !.psi = L(1, 1, 1, 1)]) >>
VARIABLES s, h
vars == <<s, h>>
Free == {i \in Ids : i \notin DOMAIN s.o}
Low == CHOOSE i \in Free : \A j \in Free : i <= j
Do(e) == Allowed(s, e) /\ s' = After(s, e) /\ h' = Append(h, e)
NewEv(i, k) == LET f == Protos[k] IN [op |-> "new", id |-> i, name |-> f.name, desc |-> f.desc, axis |-> f.axis, R |-> f.R, Z |-> f.Z, br |-> f.br, bp |-> f.bp, bz |-> f.bz, psi |-> f.psi, sep |-> f.sep, wall |-> f.wall, ret |-> "ok"]
Init == s = [o |-> [i \in {} |-> 0], f |-> [i \in {} |-> 0]] /\ h = <<>>
Next == /\ Len(h) < Depth
        /\ \/ Free # {} /\ \E k \in 1..Len(Protos) : Do(NewEv(Low, k))
           \/ Free # {} /\ \E i \in DOMAIN s.o : Do([op |-> "clone", id |-> i, to |-> Low, ret |-> "ok"])
           \/ \E i \in DOMAIN s.o, n \in Files : Do([op |-> "save", id |-> i, file |-> n, ret |-> "ok"])
           \/ Free # {} /\ \E n \in DOMAIN s.f : Do([op |-> "load", id |-> Low, file |-> n, ret |-> "ok"])
           \/ \E i \in DOMAIN s.o, n \in DOMAIN s.f : Do([op |-> "reload", id |-> i, file |-> n, ret |-> "ok"])
           \/ \E i \in DOMAIN s.o : Do([op |-> "del", id |-> i, ret |-> "ok"])
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
IsProto(f) == \E k \in 1..Len(Protos) : f = Protos[k]
Kept == /\ \A i \in DOMAIN s.o : IsProto(s.o[i])
        /\ \A n \in DOMAIN s.f : CanLoad(s.f[n]) /\ IsProto(Contents(s.f[n]))
(* the same file with matrices and contours stored the other way around holds the same field *)
Turned(v) == [k \in DOMAIN v |-> IF k \in {"Br", "Bphi", "Bz", "Psi", "wall", "separatrix"} THEN Tr(v[k]) ELSE v[k]]
Layout == \A n \in DOMAIN s.f : CanLoad(Turned(s.f[n])) /\ Contents(Turned(s.f[n])) = Contents(s.f[n])
(* a quarter turn of the point turns the vector; what is outside of the grid is seen at its rim *)
Pt(x, y, r, z) == [x |-> x, y |-> y, r |-> r, z |-> z]
Turn == \A i \in DOMAIN s.o : \A r \in 1..8, z \in -3..4 :
    LET a == B(s.o[i], Pt(r, 0, r, z))  b == B(s.o[i], Pt(0, r, r, z))
    IN a[1] = b[1] /\ (a[1] => b[2] = <<-a[2][2], a[2][1], a[2][3]>>)
Rim == \A i \in DOMAIN s.o : \A z \in -3..4 : LET f == s.o[i] IN
    /\ At(f, f.br, f.lin.br, 1, z) = At(f, f.br, f.lin.br, 2, z) /\ At(f, f.br, f.lin.br, 9, z) = At(f, f.br, f.lin.br, 6, z)
    /\ At(f, f.bz, f.lin.bz, 3, 3 + 5) = <<TRUE, f.bz[5][2]>>
(* divergence and curl of the Jacobian are those of the cylindrical components: r^3 div = r^2 (br + r br_r + r bz_z) *)
Div == \A i \in DOMAIN s.o : LET f == s.o[i] IN (f.lin.br /\ f.lin.bp /\ f.lin.bz) =>
    \A q \in {Pt(3, 4, 5, 1), Pt(-4, 3, 5, -2), Pt(0, 4, 4, 0), Pt(6, 0, 6, 3)} : LET J == Jac(f, q) IN
        J[1] + J[5] + J[9] = q.r*q.r*(Exact(f, f.br, q.r, q.z) + q.r*(DR(f, f.br, q.r, q.z) + DZ(f, f.bz, q.r, q.z)))
        /\ J[4] - J[2] = q.r*q.r*(Exact(f, f.bp, q.r, q.z) + q.r*DR(f, f.bp, q.r, q.z))
Short(e) == IF e.op = "new" THEN [op |-> "new", id |-> e.id, k |-> CHOOSE k \in 1..Len(Protos) : Protos[k].name = e.name /\ Protos[k].desc = e.desc] ELSE e
Emitted == Len(h) = Depth => PrintT("EMIT " \o ToJson([i \in 1..Len(h) |-> Short(h[i])]))
Protocol == PrintT("EMIT " \o ToJson([protos |-> Protos]))
Coverage == (h = <<>>) => Protocol
=============================================================================
