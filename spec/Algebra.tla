------------------------------ MODULE Algebra ------------------------------
(* Vectors and matrices over the integers: registers and programs. A vector is a sequence, a matrix a
   sequence of rows. Registers are numbered from 0 in events. *)
EXTENDS Integers, Sequences
Map(v, f(_)) == [i \in 1..Len(v) |-> f(v[i])]
VAdd(u, v) == [i \in 1..Len(u) |-> u[i] + v[i]]
VSub(u, v) == [i \in 1..Len(u) |-> u[i] - v[i]]
VAddS(v, s) == [i \in 1..Len(v) |-> v[i] + s]
VSSub(s, v) == [i \in 1..Len(v) |-> s - v[i]]
VMul(v, s) == [i \in 1..Len(v) |-> v[i] * s]
Neg(n) == 0 - n
(* exact quotient; only used where it is whole *)
Quo(a, s) == IF s > 0 THEN a \div s ELSE Neg(a) \div Neg(s)
Up(x, n) == x \div n
VDiv(v, s) == [i \in 1..Len(v) |-> Quo(v[i], s)]
RECURSIVE SumTo(_, _)
SumTo(v, n) == IF n = 0 THEN 0 ELSE v[n] + SumTo(v, n - 1)
Sum(v) == SumTo(v, Len(v))
VDot(u, v) == Sum([i \in 1..Len(u) |-> u[i] * v[i]])
VCross(a, b) == <<a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1]>>
MMap(A, f(_)) == [i \in 1..Len(A) |-> Map(A[i], f)]
MAdd(A, B) == [i \in 1..Len(A) |-> VAdd(A[i], B[i])]
MSub(A, B) == [i \in 1..Len(A) |-> VSub(A[i], B[i])]
MAddS(A, s) == [i \in 1..Len(A) |-> VAddS(A[i], s)]
MSSub(s, A) == [i \in 1..Len(A) |-> VSSub(s, A[i])]
MScale(A, s) == [i \in 1..Len(A) |-> VMul(A[i], s)]
Column(A, j) == [i \in 1..Len(A) |-> A[i][j]]
MMul(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> VDot(A[i], Column(B, j))]]
MVec(A, x) == [i \in 1..Len(A) |-> VDot(A[i], x)]
VMat(y, A) == [j \in 1..Len(A[1]) |-> VDot(y, Column(A, j))]
MOuter(y, x) == [i \in 1..Len(y) |-> [j \in 1..Len(x) |-> y[i] * x[j]]]
MZero(m, n) == [i \in 1..m |-> [j \in 1..n |-> 0]]
Fold(q, m, n) == [i \in 1..m |-> [j \in 1..n |-> q[(i-1)*n + j]]]
Elem(A, k) == A[(k \div Len(A[1])) + 1][(k % Len(A[1])) + 1]     \* linear index from 0
------------------------------------------------------------------------------
(* vector programs: state = sequence of four vectors *)
VAfter(v, e) ==
    LET d == e.d + 1  a == v[e.a+1]  b == v[e.b+1]  s == e.s  w == v[d]  N == Len(w)  el == a[e.i+1]
        set(x) == [v EXCEPT ![d] = x]
    IN CASE e.op = "set" -> set(e.x)
         [] e.op = "fill" -> set([k \in 1..N |-> s])
         [] e.op = "fillel" -> set([k \in 1..N |-> el])
         [] e.op \in {"copy", "construct", "convert"} -> set(a)
         [] e.op = "zero" -> set([k \in 1..N |-> 0])
         [] e.op = "addeq" -> set(VAdd(w, a)) [] e.op = "subeq" -> set(VSub(w, a))
         [] e.op = "addeqs" -> set(VAddS(w, s)) [] e.op = "subeqs" -> set(VAddS(w, Neg(s)))
         [] e.op = "muleqs" -> set(VMul(w, s)) [] e.op = "diveqs" -> set(VDiv(w, s))
         [] e.op = "addeqel" -> set(VAddS(w, el)) [] e.op = "subeqel" -> set(VAddS(w, Neg(el)))
         [] e.op = "muleqel" -> set(VMul(w, el)) [] e.op = "diveqel" -> set(VDiv(w, el))
         [] e.op = "neg" -> set(VMul(a, -1))
         [] e.op = "add" -> set(VAdd(a, b)) [] e.op = "sub" -> set(VSub(a, b))
         [] e.op \in {"adds", "sadd"} -> set(VAddS(a, s)) [] e.op = "subs" -> set(VAddS(a, Neg(s))) [] e.op = "ssub" -> set(VSSub(s, a))
         [] e.op \in {"muls", "smul"} -> set(VMul(a, s)) [] e.op = "divs" -> set(VDiv(a, s))
         [] e.op = "cross" /\ N = 3 -> set(VCross(a, b))
         [] OTHER -> v
SelfOps == {"fill", "fillel", "copy", "addeq", "subeq", "addeqs", "subeqs", "muleqs", "diveqs", "addeqel", "subeqel", "muleqel", "diveqel"}
VRet(v, e) ==
    LET a == v[e.a+1]  b == v[e.b+1]  q == VDot(a, a)
    IN CASE e.op \in SelfOps -> e.ret = "self"
         [] e.op = "set" -> e.ret = (IF e.how = "assign" THEN "self" ELSE "none")
         [] e.op = "dot" -> e.ret = VDot(a, b)
         [] e.op = "norm" -> e.ret >= 0 /\ e.ret * e.ret <= q /\ q < (e.ret + 1) * (e.ret + 1)
         [] e.op = "normalize" -> (e.n * e.n = q /\ \A k \in 1..Len(a) : LET x == 1000000 * a[k] IN e.ret[k] <= Up(x, e.n) + 1 /\ e.ret[k] >= Up(x, e.n) - 1)
         [] e.op = "array" -> e.ret = Append(a, 77)
         [] e.op = "size" -> e.ret = Len(a)
         [] e.op = "cross" -> IF Len(a) = 3 THEN e.ret = (IF e.how = "ref" THEN "self" ELSE "none") ELSE e.ret = "exc"
         [] e.op \in {"construct", "convert", "zero", "neg", "add", "sub", "adds", "sadd", "subs", "ssub", "muls", "smul", "divs"} -> e.ret = "none"
         [] OTHER -> FALSE
VAllowed(v, e) == VRet(v, e) /\ e.regs = VAfter(v, e)
------------------------------------------------------------------------------
(* matrix programs: A three MxN, B two NxK, C MxK, x two N-vectors, y two M-vectors *)
MStart(M, N, K) == [A |-> [i \in 1..3 |-> MZero(M, N)], B |-> [i \in 1..2 |-> MZero(N, K)], C |-> MZero(M, K),
                    x |-> [i \in 1..2 |-> [j \in 1..N |-> 0]], y |-> [i \in 1..2 |-> [j \in 1..M |-> 0]]]
MAfter(r, e) ==
    LET M == Len(r.A[1])  N == Len(r.A[1][1])  K == Len(r.C[1])
        d == e.d + 1  s == e.s  w == r.A[d]
        a == r.A[e.a+1]  b == r.A[e.b+1]
        set(Z) == [r EXCEPT !.A[d] = Z]
    IN CASE e.op = "seta" -> set(Fold(e.x, M, N))
         [] e.op = "setb" -> [r EXCEPT !.B[d] = Fold(e.x, N, K)]
         [] e.op = "setx" -> [r EXCEPT !.x[d] = e.x] [] e.op = "sety" -> [r EXCEPT !.y[d] = e.x]
         [] e.op \in {"copy", "construct"} -> set(a) [] e.op = "zero" -> set(MZero(M, N))
         [] e.op = "addeq" -> set(MAdd(w, a)) [] e.op = "subeq" -> set(MSub(w, a))
         [] e.op = "addeqs" -> set(MAddS(w, s)) [] e.op = "subeqs" -> set(MAddS(w, Neg(s))) [] e.op = "muleqs" -> set(MScale(w, s))
         [] e.op = "addeqel" -> set(MAddS(w, Elem(a, e.i))) [] e.op = "muleqel" -> set(MScale(w, Elem(a, e.i)))
         [] e.op = "neg" -> set(MScale(a, -1)) [] e.op = "add" -> set(MAdd(a, b)) [] e.op = "sub" -> set(MSub(a, b))
         [] e.op \in {"adds", "sadd"} -> set(MAddS(a, s)) [] e.op = "subs" -> set(MAddS(a, Neg(s))) [] e.op = "ssub" -> set(MSSub(s, a))
         [] e.op \in {"muls", "smul"} -> set(MScale(a, s))
         [] e.op = "mul" -> [r EXCEPT !.C = MMul(a, r.B[e.b+1])]
         [] e.op = "muleq" /\ M = N -> set(MMul(w, a))
         [] e.op = "mx" -> [r EXCEPT !.y[d] = MVec(a, r.x[e.b+1])] [] e.op = "ym" -> [r EXCEPT !.x[d] = VMat(r.y[e.b+1], a)]
         [] e.op = "outer" -> set(MOuter(r.y[e.a+1], r.x[e.b+1]))
         [] OTHER -> r
MRet(r, e) == LET M == Len(r.A[1])  N == Len(r.A[1][1])  K == Len(r.C[1]) IN
    CASE e.op \in {"copy", "addeq", "subeq", "addeqs", "subeqs", "muleqs", "addeqel", "muleqel"} -> e.ret = "self"
      [] e.op = "muleq" -> e.ret = (IF M = N THEN "self" ELSE "skip")
      [] e.op = "size" -> e.ret = <<M, N, N, K>>
      [] e.op \in {"seta", "setb", "setx", "sety", "construct", "zero", "neg", "add", "sub", "adds", "sadd", "subs", "ssub", "muls", "smul", "mul", "mx", "ym", "outer"} -> e.ret = "none"
      [] OTHER -> FALSE
MAllowed(r, e) == MRet(r, e) /\ e.regs = MAfter(r, e)
=============================================================================
