------------------------------- MODULE Magnetic -------------------------------
(* Numeric magnetic fields: tables of the cylindrical components (and possibly of the poloidal flux)
   on an (R,Z) grid, with a wall and/or a separatrix, kept in a pool of objects and in files.
   Lengths are whole ticks, components whole numbers. A table is a sequence of rows (one for each Z).
   At a grid point the field is the tabulated one; between the grid points the interpolant is only
   fixed for tables that are bilinear, which every such interpolation reproduces exactly. Outside of
   the grid the nearest point of the grid is used, at the same toroidal angle. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
D == INSTANCE Domain
Increasing(s) == \A i \in 2..Len(s) : s[i-1] < s[i]
Grid(s) == Len(s) >= 4 /\ Increasing(s)          \* what a bicubic interpolant needs
Rows(M) == Len(M)
Cols(M) == Len(M[1])
Tr(M) == [i \in 1..Cols(M) |-> [j \in 1..Rows(M) |-> M[j][i]]]
Get(r, k, d) == IF k \in DOMAIN r THEN r[k] ELSE d
None == <<>>
------------------------------------------------------------------------------
(* ---- interpolation ---- *)
(* twice-differences vanish: T[j][i] = a + b R + c Z + d R Z; stated without division *)
Lag(f, T, r, z) ==      \* (R2-R1)(Z2-Z1) times the bilinear function through the first four points
    LET R1 == f.R[1]  R2 == f.R[2]  Z1 == f.Z[1]  Z2 == f.Z[2]
    IN (T[1][1]*(R2-r) + T[1][2]*(r-R1))*(Z2-z) + (T[2][1]*(R2-r) + T[2][2]*(r-R1))*(z-Z1)
Cell(f) == (f.R[2]-f.R[1])*(f.Z[2]-f.Z[1])
Bilinear(f, T) == \A i \in 1..Len(f.R), j \in 1..Len(f.Z) : T[j][i]*Cell(f) = Lag(f, T, f.R[i], f.Z[j])
Exact(f, T, r, z) == Lag(f, T, r, z) \div Cell(f)
DR(f, T, r, z) == (Lag(f, T, r+1, z) - Lag(f, T, r, z)) \div Cell(f)
DZ(f, T, r, z) == (Lag(f, T, r, z+1) - Lag(f, T, r, z)) \div Cell(f)
Has(s, v) == \E i \in 1..Len(s) : s[i] = v
Ix(s, v) == CHOOSE i \in 1..Len(s) : s[i] = v
Node(f, r, z) == Has(f.R, r) /\ Has(f.Z, z)
Clamp(s, v) == IF v < s[1] THEN s[1] ELSE IF v > s[Len(s)] THEN s[Len(s)] ELSE v
(* <<known, value>> of the table T at (r,z) *)
At(f, T, lin, r, z) ==
    LET rc == Clamp(f.R, r)  zc == Clamp(f.Z, z)
    IN IF Node(f, rc, zc) THEN <<TRUE, T[Ix(f.Z, zc)][Ix(f.R, rc)]>>
       ELSE IF lin THEN <<TRUE, Exact(f, T, rc, zc)>> ELSE <<FALSE, 0>>
InGrid(f, r, z) == Clamp(f.R, r) = r /\ Clamp(f.Z, z) = z
------------------------------------------------------------------------------
(* ---- fields ---- *)
Boundary(f) == IF f.sep # None THEN f.sep ELSE f.wall       \* where particles may start
DomainOf(f) == IF f.wall # None THEN f.wall ELSE f.sep
Ok(f) == /\ Grid(f.R) /\ Grid(f.Z)
         /\ f.wall # None \/ f.sep # None
         /\ D!Range(Boundary(f), 1, 2, f.axis[2]) # <<>>
Finish(f) == [f EXCEPT !.lin = [k \in {"br", "bp", "bz"} |-> Bilinear(f, f[k])] @@ ("psi" :> (f.psi # None /\ Bilinear(f, f.psi)))]
------------------------------------------------------------------------------
(* ---- files: the variables they contain ---- *)
Pts(M) == IF Rows(M) = 2 THEN [i \in 1..Cols(M) |-> <<M[1][i], M[2][i]>>] ELSE [i \in 1..Rows(M) |-> <<M[i][1], M[i][2]>>]
Shape(M, n, m) == Rows(M) = n /\ Cols(M) = m
Tab(M, nr, nz) == IF Shape(M, nz, nr) THEN M ELSE Tr(M)
Fit(M, nr, nz) == Shape(M, nz, nr) \/ Shape(M, nr, nz)
Ver(v, k, T, nr) == k \notin DOMAIN v \/ (Len(v[k]) <= nr /\ \A i \in 1..Len(v[k]) : v[k][i] = T[1][i])
Needed == {"name", "desc", "maxis", "r", "z", "Br", "Bphi", "Bz"}
Loadable(v) ==
    IF ~(Needed \subseteq DOMAIN v) THEN FALSE
    ELSE LET nr == Len(v.r)  nz == Len(v.z)
         IN /\ Len(v.maxis) = 2
            /\ \A k \in {"Br", "Bphi", "Bz", "Psi"} \cap DOMAIN v : Fit(v[k], nr, nz)
            /\ \A k \in {"wall", "separatrix"} \cap DOMAIN v : Rows(v[k]) = 2 \/ Cols(v[k]) = 2
            /\ ("wall" \in DOMAIN v \/ "separatrix" \in DOMAIN v)
Contents(v) == LET nr == Len(v.r)  nz == Len(v.z)
    IN Finish([name |-> v.name, desc |-> v.desc, axis |-> v.maxis, R |-> v.r, Z |-> v.z,
        br |-> Tab(v.Br, nr, nz), bp |-> Tab(v.Bphi, nr, nz), bz |-> Tab(v.Bz, nr, nz),
        psi |-> IF "Psi" \in DOMAIN v THEN Tab(v.Psi, nr, nz) ELSE None,
        sep |-> IF "separatrix" \in DOMAIN v THEN Pts(v.separatrix) ELSE None,
        wall |-> IF "wall" \in DOMAIN v THEN Pts(v.wall) ELSE None, lin |-> 0])
GridsOk(v) == Grid(v.r) /\ Grid(v.z)
CanLoad(v) == IF ~Loadable(v) THEN FALSE
    ELSE IF ~GridsOk(v) THEN FALSE
    ELSE LET nr == Len(v.r)  nz == Len(v.z) IN
         IF Ver(v, "verBr", Tab(v.Br, nr, nz), nr) /\ Ver(v, "verBphi", Tab(v.Bphi, nr, nz), nr) /\ Ver(v, "verBz", Tab(v.Bz, nr, nz), nr)
         THEN Ok(Contents(v)) ELSE FALSE
(* what saving a field writes (the order of the variables is immaterial) *)
Mat(P) == <<[i \in 1..Len(P) |-> P[i][1]], [i \in 1..Len(P) |-> P[i][2]]>>
Saved(f) == [name |-> f.name, desc |-> f.desc, maxis |-> f.axis, r |-> f.R, z |-> f.Z, Br |-> f.br, Bphi |-> f.bp, Bz |-> f.bz,
             verBr |-> f.br[1], verBphi |-> f.bp[1], verBz |-> f.bz[1]]
            @@ (IF f.psi # None THEN "Psi" :> f.psi ELSE <<>>)
            @@ (IF f.sep # None THEN "separatrix" :> Mat(f.sep) ELSE <<>>)
            @@ (IF f.wall # None THEN "wall" :> Mat(f.wall) ELSE <<>>)
------------------------------------------------------------------------------
(* ---- what may be observed; s = [o |-> objects, f |-> files] ---- *)
(* the toroidal rotation: <<x, y>> has the whole length r; the components come times r *)
Rot(br, bp, bz, x, y, r) == IF r = 0 THEN <<br, bp, bz>> ELSE <<br*x - bp*y, br*y + bp*x, bz*r>>
B(f, e) == LET a == At(f, f.br, f.lin.br, e.r, e.z)  b == At(f, f.bp, f.lin.bp, e.r, e.z)  c == At(f, f.bz, f.lin.bz, e.r, e.z)
    IN <<a[1] /\ b[1] /\ c[1], Rot(a[2], b[2], c[2], e.x, e.y, e.r)>>
Jac(f, e) ==        \* times r^3
    LET x == e.x  y == e.y  r == e.r  z == e.z
        br == Exact(f, f.br, r, z)  bp == Exact(f, f.bp, r, z)
        rr == DR(f, f.br, r, z)  rz == DZ(f, f.br, r, z)
        pr == DR(f, f.bp, r, z)  pz == DZ(f, f.bp, r, z)
        zr == DR(f, f.bz, r, z)  zz == DZ(f, f.bz, r, z)
    IN << x*x*r*rr + br*y*y - x*y*r*pr + bp*x*y,  x*y*r*rr - br*x*y - y*y*r*pr - bp*x*x,  r*r*(x*rz - y*pz),
          x*y*r*rr - br*x*y + x*x*r*pr + bp*y*y,  y*y*r*rr + br*x*x + x*y*r*pr - bp*x*y,  r*r*(y*rz + x*pz),
          r*r*x*zr, r*r*y*zr, r*r*r*zz >>
Curl(J) == <<J[8] - J[6], J[3] - J[7], J[4] - J[2]>>
Grad(b, J) == <<b[1]*J[1] + b[2]*J[4] + b[3]*J[7], b[1]*J[2] + b[2]*J[5] + b[3]*J[8], b[1]*J[3] + b[2]*J[6] + b[3]*J[9]>>
Sq3(b) == b[1]*b[1] + b[2]*b[2] + b[3]*b[3]
Unit(S) == [i \in 1..Len(S) |-> <<D!U*S[i][1], D!U*S[i][2]>>]
Raw(e) == Finish([name |-> e.name, desc |-> e.desc, axis |-> e.axis, R |-> e.R, Z |-> e.Z, br |-> e.br, bp |-> e.bp, bz |-> e.bz, psi |-> e.psi, sep |-> e.sep, wall |-> e.wall, lin |-> 0])
NewOk(e) == IF Grid(e.R) /\ Grid(e.Z) /\ (e.wall # None \/ e.sep # None)
            THEN D!Range(IF e.sep # None THEN e.sep ELSE e.wall, 1, 2, e.axis[2]) # <<>> ELSE FALSE
Gone(s, e) == e.ret = "gone"
Allowed(s, e) ==
    CASE e.op = "new"   -> e.ret = (IF NewOk(e) THEN "ok" ELSE "exc")
      [] e.op = "write" -> e.ret = "ok"
      [] e.op = "load"  -> e.ret = (IF e.file \notin DOMAIN s.f THEN "exc" ELSE IF CanLoad(s.f[e.file]) THEN "ok" ELSE "exc")
      [] e.id \notin DOMAIN s.o -> Gone(s, e)
      [] e.op = "reload" -> e.ret = (IF e.file \notin DOMAIN s.f THEN "exc" ELSE IF CanLoad(s.f[e.file]) THEN "ok" ELSE "exc")
      [] e.op = "clone" -> e.ret = "ok"
      [] e.op = "save"  -> e.ret = "ok"
      [] e.op = "del"   -> e.ret = "ok"
      [] e.op = "get"   -> LET f == s.o[e.id]  P == DomainOf(f) IN
            /\ e.ret = "ok" /\ e.name = f.name /\ e.desc = f.desc /\ e.axis = f.axis /\ e.flux = (f.psi # None)
            /\ e.dom = P /\ e.sep = f.sep /\ e.ext = D!Range(Boundary(f), 1, 2, f.axis[2])
            /\ e.bnd = LET b == D!Bounds(Append(P, f.axis)) IN <<b[1], b[2], b[3], b[4]>>
      [] e.op = "nodes" -> LET f == s.o[e.id]
                               Same(T, lin, M) == \A j \in 1..Len(e.Z), i \in 1..Len(e.R) : LET v == At(f, T, lin, e.R[i], e.Z[j]) IN v[1] => M[j][i] = v[2] IN
            /\ e.ret = "ok" /\ Same(f.br, f.lin.br, e.br) /\ Same(f.bp, f.lin.bp, e.bp) /\ Same(f.bz, f.lin.bz, e.bz)
            /\ IF f.psi = None THEN e.psi = None ELSE Same(f.psi, f.lin.psi, e.psi)
      [] e.op = "eval"  -> LET b == B(s.o[e.id], e) IN e.ret = "ok" /\ (b[1] => e.b = b[2])
      [] e.op = "der"   -> LET f == s.o[e.id]  b == B(f, e)  lin == f.lin.br /\ f.lin.bp /\ f.lin.bz IN
            /\ e.ret = "ok"
            /\ b[1] => e.b = b[2] /\ (Sq3(b[2]) # 0 => e.b2 = Sq3(b[2]))
            /\ b[1] /\ lin /\ InGrid(f, e.r, e.z) /\ e.r > 0 => LET J == Jac(f, e) IN
                 /\ e.J = J /\ e.curl = Curl(J)
                 /\ Sq3(b[2]) # 0 => e.grad = Grad(b[2], J)
      [] e.op = "flux"  -> LET f == s.o[e.id] IN
            IF f.psi = None THEN e.ret = "exc"
            ELSE LET p == At(f, f.psi, f.lin.psi, e.r, e.z) IN e.ret = "ok" /\ (p[1] => \A i \in 1..Len(e.val) : e.val[i] = p[2])
      [] e.op = "dflux" -> LET f == s.o[e.id] IN
            IF f.psi = None THEN e.ret = "exc"
            ELSE LET p == At(f, f.psi, f.lin.psi, e.r, e.z) IN
                 /\ e.ret = "ok" /\ (p[1] => e.val[1] = p[2])
                 /\ f.lin.psi /\ InGrid(f, e.r, e.z) => e.val[2] = DR(f, f.psi, e.r, e.z) /\ e.val[3] = DZ(f, f.psi, e.r, e.z)
      (* between the grid points: the same as any field with the same data, and the same at every toroidal angle *)
      [] e.op = "cmp"   -> IF e.other \notin DOMAIN s.o THEN Gone(s, e)
                           ELSE LET f == s.o[e.id]  g == s.o[e.other] IN
                                e.ret = "ok" /\ (f.R = g.R /\ f.Z = g.Z /\ f.br = g.br /\ f.bp = g.bp /\ f.bz = g.bz /\ f.psi = g.psi => e.same)
      [] e.op = "turn"  -> e.ret = "ok" /\ e.same
      [] OTHER -> FALSE
Drop(h, k) == [j \in DOMAIN h \ {k} |-> h[j]]
After(s, e) ==
    CASE e.op = "new" /\ e.ret = "ok" -> [s EXCEPT !.o = (e.id :> Raw(e)) @@ @]
      [] e.op = "write"               -> [s EXCEPT !.f = (e.file :> e.vars) @@ @]
      [] e.op = "load" /\ e.ret = "ok" -> [s EXCEPT !.o = (e.id :> Contents(s.f[e.file])) @@ @]
      [] e.op = "reload" /\ e.ret = "ok" -> [s EXCEPT !.o = (e.id :> Contents(s.f[e.file])) @@ @]
      [] e.op = "reload" /\ e.ret # "ok" -> [s EXCEPT !.o = Drop(@, e.id)]      \* (left in no particular state)
      [] e.op = "clone" /\ e.ret = "ok" -> [s EXCEPT !.o = (e.to :> s.o[e.id]) @@ @]
      [] e.op = "save" /\ e.ret = "ok" -> [s EXCEPT !.f = (e.file :> Saved(s.o[e.id])) @@ @]
      [] e.op = "del"                 -> [s EXCEPT !.o = Drop(@, e.id)]
      [] OTHER -> s
=============================================================================
