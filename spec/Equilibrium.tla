------------------------------ MODULE Equilibrium ------------------------------
(* LUKE equilibria: the components of the magnetic field are tabulated over the flux surfaces (by their poloidal
   flux) and the poloidal angle, and the normalised flux over a grid of (x,y) measured from the magnetic axis. Loading
   one gives a numeric field on the (R,Z) grid of the flux: at each of its points the components are interpolated
   linearly in the flux and in the angle of the point (and continued linearly beyond the last flux surface).
   Angles are in eighths of a turn, normalised flux in quarters, lengths in whole ticks, components whole numbers. *)
EXTENDS Integers, Sequences, Rat, TLC
M == INSTANCE Magnetic
D == INSTANCE Domain
Abs(x) == IF x < 0 THEN -x ELSE x
------------------------------------------------------------------------------
(* the angle of (x,y), counted from the x axis, in eighths of a turn. The arctangents of 1/3, 1/2 and 2/3 are rounded
   to a millionth; those of other fractions are not tabulated. *)
Arc(n, d) == IF n = 0 THEN I(0) ELSE IF n = d THEN I(1)
    ELSE IF 2*n = d THEN Rat(590334, 1000000) ELSE IF 3*n = d THEN Rat(409666, 1000000) ELSE IF 3*n = 2*d THEN Rat(748668, 1000000) ELSE Unknown
First(x, y) == IF x = 0 /\ y = 0 THEN I(0) ELSE IF y <= x THEN Arc(y, x) ELSE Sub(I(2), Arc(x, y))       \* in the first quadrant
Angle(x, y) == IF x >= 0 /\ y >= 0 THEN First(x, y)
    ELSE IF x < 0 /\ y >= 0 THEN Sub(I(4), First(-x, y))
    ELSE IF x < 0 THEN Add(I(4), First(-x, -y))
    ELSE Sub(I(8), First(x, -y))
Le(a, b) == a[1]*b[2] <= b[1]*a[2]
------------------------------------------------------------------------------
Increasing(s) == \A i \in 2..Len(s) : s[i-1] < s[i]
(* normalised flux of the surfaces: whole numbers over the last one *)
Level(v, i) == Rat(Abs(v.psi[i]), Abs(v.psi[Len(v.psi)]))
Surfaces(v) == v.psi[Len(v.psi)] # 0 /\ Len(v.psi) >= 2 /\ \A i \in 2..Len(v.psi) : Abs(v.psi[i-1]) < Abs(v.psi[i])
(* the cell of a grid (as a function to rationals) in which q lies; the first or last one if none *)
Cell(n, g(_), q) == IF n = 2 THEN 1 ELSE LET S == {i \in 2..(n-1) : Le(g(i), q)} IN IF S = {} THEN 1 ELSE CHOOSE i \in S : \A j \in S : j <= i
Lerp(a, b, w) == Add(a, Mul(Sub(b, a), w))
Value(v, T, q, a) ==            \* of the table T (a row for each angle) at flux q and angle a
    IF ~Known(a) THEN Unknown ELSE
    LET nt == Len(v.theta)  L(k) == Level(v, k)  A(k) == I(v.theta[k]) IN
    IF ~(Le(A(1), a) /\ Le(a, A(nt))) THEN Unknown ELSE       \* (beyond the tabulated angles: not specified)
    LET i == Cell(Len(v.psi), L, q)  j == Cell(nt, A, a)
        u == Div(Sub(q, L(i)), Sub(L(i+1), L(i)))
        w == Div(Sub(a, A(j)), Sub(A(j+1), A(j)))
    IN Lerp(Lerp(I(T[j][i]), I(T[j][i+1]), u), Lerp(I(T[j+1][i]), I(T[j+1][i+1]), u), w)
------------------------------------------------------------------------------
Needed == {"id", "Rp", "Zp", "x", "y", "xypsin", "psia", "psi", "theta", "ptBx", "ptBy", "ptBPHI", "ptx", "pty"}
Shape(T, n, m) == Len(T) = n /\ \A i \in 1..n : Len(T[i]) = m
Loadable(v) ==
    IF ~(Needed \subseteq DOMAIN v) THEN FALSE
    ELSE IF ~(/\ Shape(v.xypsin, Len(v.y), Len(v.x))
              /\ \A k \in {"ptBx", "ptBy", "ptBPHI", "ptx", "pty"} : Shape(v[k], Len(v.theta), Len(v.psi))) THEN FALSE
    ELSE IF ~(Len(v.psi) >= 2 /\ Len(v.theta) >= 2) THEN FALSE
    ELSE Surfaces(v) /\ Increasing(v.theta) /\ M!Grid(v.x) /\ M!Grid(v.y)
Sep(v) == [i \in 1..Len(v.theta) |-> <<v.ptx[i][Len(v.psi)] + v.Rp, v.pty[i][Len(v.psi)] + v.Zp>>]
Table(v, T) == [j \in 1..Len(v.y) |-> [i \in 1..Len(v.x) |-> Value(v, T, Rat(Abs(v.xypsin[j][i]), 4), Angle(v.x[i], v.y[j]))]]
Field(v, wall) == [name |-> v.id, axis |-> <<v.Rp, v.Zp>>, R |-> [i \in 1..Len(v.x) |-> v.x[i] + v.Rp], Z |-> [j \in 1..Len(v.y) |-> v.y[j] + v.Zp],
    br |-> Table(v, v.ptBx), bz |-> Table(v, v.ptBy), bp |-> Table(v, v.ptBPHI),
    psi |-> [j \in 1..Len(v.y) |-> [i \in 1..Len(v.x) |-> Rat(v.xypsin[j][i]*v.psia, 4)]], sep |-> Sep(v), wall |-> wall, luke |-> TRUE]
WallOk(m) == IF "wall" \in DOMAIN m THEN Len(m.wall) = 2 \/ Len(m.wall[1]) = 2 ELSE FALSE
Wall(m) == M!Pts(m.wall)
------------------------------------------------------------------------------
Close(x, v) == Decides(x) => LET m == Millionths(x) IN v \in (m-80)..(m+80)
Same(T, U) == \A j \in 1..Len(T), i \in 1..Len(T[1]) : Close(T[j][i], U[j][i])
(* loading is possible: the file, and the wall file if one is named *)
HasFile(s, f) == f \in DOMAIN s.f
CanLoad(s, e) ==
    IF ~HasFile(s, e.file) THEN FALSE
    ELSE IF ~Loadable(s.f[e.file]) THEN FALSE
    ELSE IF e.wall # "" /\ ~HasFile(s, e.wall) THEN FALSE
    ELSE IF e.wall # "" /\ (IF e.wall # "" THEN ~WallOk(s.f[e.wall]) ELSE FALSE) THEN FALSE
    ELSE D!Range(Sep(s.f[e.file]), 1, 2, s.f[e.file].Zp) # <<>>
Loaded(s, e) == Field(s.f[e.file], IF e.wall = "" THEN <<>> ELSE Wall(s.f[e.wall]))
DomainOf(f) == IF f.wall # <<>> THEN f.wall ELSE f.sep
Gone(e) == e.ret = "gone"
Allowed(s, e) ==
    CASE e.op = "write" -> e.ret = "ok"
      [] e.op = "load"  -> e.ret = (IF CanLoad(s, e) THEN "ok" ELSE "exc")
      [] e.id \notin DOMAIN s.o -> Gone(e)
      [] e.op \in {"reload", "wall"} /\ ~s.o[e.id].luke -> Gone(e)            \* (copies are ordinary numeric fields)
      [] e.op = "reload" -> e.ret = (IF CanLoad(s, e) THEN "ok" ELSE "exc")
      [] e.op = "wall"  -> e.ret = (IF e.wall = "" THEN "ok" ELSE IF ~HasFile(s, e.wall) THEN "exc" ELSE IF WallOk(s.f[e.wall]) THEN "ok" ELSE "exc")
      [] e.op = "clone" -> e.ret = "ok"
      [] e.op = "convert" -> e.ret = "ok"        \* saved as an ordinary numeric field and loaded again
      [] e.op = "del"   -> e.ret = "ok"
      [] e.op = "get"   -> LET f == s.o[e.id]  P == DomainOf(f) IN
            /\ e.ret = "ok" /\ e.name = f.name /\ e.desc = f.name /\ e.axis = f.axis /\ e.flux
            /\ e.dom = P /\ e.sep = f.sep /\ e.ext = D!Range(f.sep, 1, 2, f.axis[2])
            /\ e.bnd = LET b == D!Bounds(Append(P, f.axis)) IN <<b[1], b[2], b[3], b[4]>>
      [] e.op = "nodes" -> LET f == s.o[e.id] IN
            e.ret = "ok" /\ (e.R = f.R /\ e.Z = f.Z => Same(f.br, e.br) /\ Same(f.bp, e.bp) /\ Same(f.bz, e.bz) /\ Same(f.psi, e.psi))
      [] OTHER -> FALSE
Drop(h, k) == [j \in DOMAIN h \ {k} |-> h[j]]
Put(h, k, x) == (k :> x) @@ h
After(s, e) ==
    CASE e.op = "write" -> [s EXCEPT !.f = Put(@, e.file, e.vars)]
      [] e.op \in {"load", "reload"} /\ e.ret = "ok" -> [s EXCEPT !.o = Put(@, e.id, TLCEval(Loaded(s, e)))]
      [] e.op \in {"reload", "wall"} /\ e.ret = "exc" -> [s EXCEPT !.o = Drop(@, e.id)]      \* (left in no particular state)
      [] e.op = "wall" /\ e.ret = "ok" -> [s EXCEPT !.o = Put(@, e.id, [@[e.id] EXCEPT !.wall = IF e.wall = "" THEN <<>> ELSE Wall(s.f[e.wall])])]
      [] e.op \in {"clone", "convert"} /\ e.ret = "ok" -> [s EXCEPT !.o = Put(@, e.to, [s.o[e.id] EXCEPT !.luke = FALSE])]
      [] e.op = "del" -> [s EXCEPT !.o = Drop(@, e.id)]
      [] OTHER -> s
=============================================================================
