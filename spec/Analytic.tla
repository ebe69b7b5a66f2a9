------------------------------- MODULE Analytic -------------------------------
(* The analytical magnetic field of a tokamak with circular flux surfaces,
     B = B0/R ( sI Z/q R^ + sB Rm phi^ + sI (Rm-R)/q Z^ ),   flux = sI pi B0 r^2/q,
   with r^2 = (R-Rm)^2 + Z^2, Z measured from the axis and the safety factor q a function of r/a, and its
   derivatives, exactly (in rational arithmetic) at points where they are rational. *)
EXTENDS Integers, Sequences, Rat, TLC
(* ---- safety factor: types constant, linear, quadratic, exponential (base 2^(1/tick)), current ---- *)
R2(m, p) == (p.R - m.Rm)*(p.R - m.Rm) + (p.z - m.zm)*(p.z - m.zm)
Rn(m, p) == Rat(p.s, m.a)               \* p.s is the distance r (0 if it is no whole number and not needed)
Rn2(m, p) == Rat(R2(m, p), m.a*m.a)
WholeR(m, p) == p.s*p.s = R2(m, p)
RECURSIVE Two(_)
Two(n) == IF n = 0 THEN 1 ELSE 2*Two(n-1)
(* is q known here? is its derivative? *)
QKnown(m, p) == CASE m.qt = "const" -> TRUE
                  [] m.qt = "lin"   -> WholeR(m, p)
                  [] m.qt = "quad"  -> TRUE
                  [] m.qt = "exp"   -> WholeR(m, p)
                  [] m.qt = "cur"   -> m.p2[1] < 0 \/ m.p2[1] % 2 = 0 \/ WholeR(m, p)
DKnown(m, p) == QKnown(m, p) /\ (m.qt = "exp" => m.p1[1] = 0 \/ R2(m, p) = 0)
RnPow(m, p) == IF m.p2[1] % 2 = 0 THEN Pow(Rn2(m, p), m.p2[1] \div 2) ELSE Pow(Rn(m, p), m.p2[1])
CurDen(m, p) == Sub(I(1), Mul(Rat(2, m.p2[1] + 2), RnPow(m, p)))
Q(m, p) == CASE m.qt = "const" -> m.p1
             [] m.qt = "lin"   -> Add(Mul(m.p1, Rn(m, p)), m.p2)
             [] m.qt = "quad"  -> Add(Mul(m.p1, Rn2(m, p)), m.p2)
             [] m.qt = "exp"   -> Add(IF m.p1[1] >= 0 THEN I(Two(m.p1[1]*p.s)) ELSE Rat(1, Two(-m.p1[1]*p.s)), m.p2)
             [] m.qt = "cur"   -> IF m.p2[1] < 0 THEN m.p1       \* (stands for an infinite exponent)
                                  ELSE Div(m.p1, CurDen(m, p))
(* r dq/dr *)
W(m, p) == CASE m.qt = "const" -> I(0)
             [] m.qt = "lin"   -> Mul(m.p1, Rn(m, p))
             [] m.qt = "quad"  -> Mul3(I(2), m.p1, Rn2(m, p))
             [] m.qt = "exp"   -> I(0)
             [] m.qt = "cur"   -> IF m.p2[1] < 0 THEN I(0)
                                  ELSE LET d == CurDen(m, p) IN Div(Mul3(Rat(2*m.p2[1], m.p2[1] + 2), m.p1, RnPow(m, p)), Mul(d, d))
Possible(m, p) == QKnown(m, p) /\ (m.qt = "cur" /\ m.p2[1] >= 0 => CurDen(m, p)[1] # 0)
------------------------------------------------------------------------------
(* ---- field ---- *)
Bc(m, p, q) == <<Div(Rat(m.B0*m.sI*(p.z - m.zm), p.R), q), Rat(m.sB*m.B0*m.Rm, p.R), Div(Rat(m.sI*m.B0*(m.Rm - p.R), p.R), q)>>
Cs(p) == Rat(p.x, p.R)
Sn(p) == Rat(p.y, p.R)
Bxyz(m, p, q) == LET b == Bc(m, p, q) IN <<Sub(Mul(b[1], Cs(p)), Mul(b[2], Sn(p))), Add(Mul(b[1], Sn(p)), Mul(b[2], Cs(p))), b[3]>>
(* derivatives of q in R and Z *)
QR(m, p, w) == IF R2(m, p) = 0 THEN I(0) ELSE Mul(w, Rat(p.R - m.Rm, R2(m, p)))
QZ(m, p, w) == IF R2(m, p) = 0 THEN I(0) ELSE Mul(w, Rat(p.z - m.zm, R2(m, p)))
Jac(m, p, q, w) ==
    LET b == Bc(m, p, q)  ir == Rat(1, p.R)  lr == Add(ir, Div(QR(m, p, w), q))  lz == Div(QZ(m, p, w), q)
        rr == Neg(Mul(b[1], lr))                                     \* dB_R/dR: 1/(R q) falls as 1/R + q_R/q
        rz == Sub(Div(Rat(m.sI*m.B0, p.R), q), Mul(b[1], lz))
        pr == Neg(Mul(b[2], ir))
        zr == Sub(Neg(Div(Rat(m.sI*m.B0, p.R), q)), Mul(b[3], lr))
        zz == Neg(Mul(b[3], lz))
        c == Cs(p)  s == Sn(p)  cc == Mul(c, c)  ss == Mul(s, s)  sc == Mul(s, c)
        br == Mul(b[1], ir)  bp == Mul(b[2], ir)
    IN << Add(Add(Mul(cc, rr), Mul(ss, br)), Mul(sc, Sub(bp, pr))),
          Sub(Sub(Mul(sc, Sub(rr, br)), Mul(ss, pr)), Mul(cc, bp)),
          Mul(c, rz),
          Add(Add(Mul(sc, Sub(rr, br)), Mul(cc, pr)), Mul(ss, bp)),
          Add(Add(Mul(ss, rr), Mul(cc, br)), Mul(sc, Sub(pr, bp))),
          Mul(s, rz),
          Mul(c, zr), Mul(s, zr), zz >>
Curl(J) == <<Sub(J[8], J[6]), Sub(J[3], J[7]), Sub(J[4], J[2])>>
Grad(b, J) == [k \in 1..3 |-> Add3(Mul(b[1], J[k]), Mul(b[2], J[3+k]), Mul(b[3], J[6+k]))]     \* times |B|
Flux(m, p, q) == Div(I(m.sI*m.B0*R2(m, p)), q)                                                  \* in units of pi
DFlux(m, p, q, w) == LET u == Div(Sub(I(2), Div(w, q)), q) IN <<Mul(I(m.sI*m.B0*(p.R - m.Rm)), u), Mul(I(m.sI*m.B0*(p.z - m.zm)), u)>>
All(xs, vs) == Len(vs) = Len(xs) /\ \A i \in 1..Len(xs) : Near(xs[i], vs[i])
------------------------------------------------------------------------------
(* ---- objects ---- *)
Allowed(o, e) ==
    IF e.op = "ana" THEN e.ret = "ok"
    ELSE IF e.id \notin DOMAIN o THEN e.ret = "gone"
    ELSE LET m == o[e.id] IN
    CASE e.op \in {"clone", "setb0", "del"} -> e.ret = "ok"
      [] e.op = "eval"  -> e.ret = "ok" /\ (Possible(m, e) => All(Bxyz(m, e, Q(m, e)), e.b))
      [] e.op = "der"   -> /\ e.ret = "ok"
                           /\ Possible(m, e) => All(Bxyz(m, e, Q(m, e)), e.b)
                           /\ Possible(m, e) /\ DKnown(m, e) =>
                                LET q == Q(m, e)  w == W(m, e)  b == Bxyz(m, e, q)  J == Jac(m, e, q, w)
                                IN All(J, e.J) /\ All(Curl(J), e.curl) /\ All(Grad(b, J), e.grad)
                                   /\ Near(Add3(Mul(b[1], b[1]), Mul(b[2], b[2]), Mul(b[3], b[3])), e.b2)
      [] e.op = "flux"  -> e.ret = "ok" /\ (Possible(m, e) => All(<<Flux(m, e, Q(m, e))>>, e.val))
      [] e.op = "dflux" -> /\ e.ret = "ok"
                           /\ Possible(m, e) => Near(Flux(m, e, Q(m, e)), e.val[1])
                           /\ Possible(m, e) /\ DKnown(m, e) => LET d == DFlux(m, e, Q(m, e), W(m, e)) IN Near(d[1], e.val[2]) /\ Near(d[2], e.val[3])
      [] e.op = "fd"    -> e.ret = "ok" /\ e.same = <<TRUE, TRUE, TRUE, TRUE, TRUE>>     \* derivatives are those of the field (and flux), curl, gradient and divergence those of the Jacobian
      [] e.op = "get"   -> /\ e.ret = "ok" /\ e.axis = <<m.Rm, m.zm>> /\ e.a = m.a /\ e.B0 = m.B0 /\ e.name = m.name /\ e.desc = m.desc
                           /\ e.circle /\ e.flux
                           /\ e.ext[2] = (m.Rm + m.a)*1000 /\ e.ext[1] \in ((m.Rm - m.a)*1000)..((m.Rm - m.a)*1000 + 20*m.a)     \* (the circle is drawn as a polygon)
      [] e.op = "num"   -> e.ret = "ok" /\ e.nodes /\ e.domain /\ e.flux /\ e.axis = <<m.Rm, m.zm>> /\ e.name = m.name
      [] OTHER -> FALSE
Rec(e) == [B0 |-> e.B0, Rm |-> e.Rm, zm |-> e.zm, a |-> e.a, sB |-> e.sB, sI |-> e.sI, qt |-> e.qt, p1 |-> Rat(e.p1[1], e.p1[2]), p2 |-> Rat(e.p2[1], e.p2[2]), name |-> e.name, desc |-> e.desc]
After(o, e) ==
    CASE e.op = "ana" -> (e.id :> Rec(e)) @@ o
      [] e.op = "clone" /\ e.ret = "ok" -> (e.to :> o[e.id]) @@ o
      [] e.op = "setb0" /\ e.ret = "ok" -> [o EXCEPT ![e.id].B0 = e.B0]
      [] e.op = "del" /\ e.ret = "ok" -> [i \in DOMAIN o \ {e.id} |-> o[i]]
      [] OTHER -> o
=============================================================================
