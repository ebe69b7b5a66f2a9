-------------------------------- MODULE Dist --------------------------------
(* Distribution functions and radial profiles. Lengths (radius, momentum, pitch) are whole numbers of ticks,
   values are whole numbers of 1/53760. Neighbouring grid points lie 1, 2 or 4 ticks apart (radii up to 8), so
   every value of a piecewise linear interpolation is exact. A value is [any, s]: if any, unconstrained, else one of s. *)
EXTENDS Integers, Sequences, FiniteSets
One == 53760
Exactly(n) == [any |-> FALSE, s |-> {n}]
Whatever == [any |-> TRUE, s |-> {}]
Fits(v, n) == v.any \/ n \in v.s
Increasing(g) == \A i \in 1..(Len(g) - 1) : g[i] < g[i+1]
Decreasing(g) == \A i \in 1..(Len(g) - 1) : g[i] > g[i+1]
(* last i with g[i] <= x, but not the last point: the interval of g holding x *)
Interval(g, x) == LET I == {i \in 1..(Len(g) - 1) : g[i] <= x} IN IF I = {} THEN 1 ELSE CHOOSE i \in I : \A j \in I : j <= i
On(g, x) == \E i \in 1..Len(g) : g[i] = x
At(g, x) == CHOOSE i \in 1..Len(g) : g[i] = x
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
RECURSIVE SumTo(_, _)
SumTo(v, n) == IF n = 0 THEN 0 ELSE v[n] + SumTo(v, n - 1)
-----------------------------------------------------------------------------
(* a table: p, x grids; f rows by pitch; log: entries are exponents of two, below zero: not positive *)
BadTable(T) == \/ ~Increasing(T.p) \/ ~Increasing(T.x)
               \/ Len(T.p) < (IF T.cub THEN 4 ELSE 2) \/ Len(T.x) < (IF T.cub THEN 4 ELSE 2)
Corners(T, i, j) == {<<i, j>>, <<i+1, j>>, <<i, j+1>>, <<i+1, j+1>>}
Weight(T, c, i, j, p, x) == (IF c[1] = i THEN T.p[i+1] - p ELSE p - T.p[i]) * (IF c[2] = j THEN T.x[j+1] - x ELSE x - T.x[j])
Bilinear(T, i, j, p, x) ==
    (T.p[i+1] - p) * ((T.x[j+1] - x) * T.f[j][i] + (x - T.x[j]) * T.f[j+1][i])
    + (p - T.p[i]) * ((T.x[j+1] - x) * T.f[j][i+1] + (x - T.x[j]) * T.f[j+1][i+1])
Area(T, i, j) == (T.p[i+1] - T.p[i]) * (T.x[j+1] - T.x[j])
GridVal(T, p, x0) ==
    LET x == IF T.flip THEN 0 - x0 ELSE x0 IN
    IF p < T.p[1] \/ p > T.p[Len(T.p)] \/ x < T.x[1] \/ x > T.x[Len(T.x)] THEN Exactly(0)
    ELSE LET i == Interval(T.p, p)  j == Interval(T.x, x)
             touching == {c \in (1..Len(T.p)) \X (1..Len(T.x)) :        \* corners of every cell the point belongs to
                            /\ \E k \in 1..(Len(T.p)-1) : T.p[k] <= p /\ p <= T.p[k+1] /\ c[1] \in {k, k+1}
                            /\ \E k \in 1..(Len(T.x)-1) : T.x[k] <= x /\ x <= T.x[k+1] /\ c[2] \in {k, k+1}}
         IN IF T.cub
            THEN IF ~(On(T.p, p) /\ On(T.x, x)) THEN Whatever
                 ELSE IF ~T.log THEN Exactly(One * T.f[At(T.x, x)][At(T.p, p)])
                 ELSE IF \E a \in 1..Len(T.x), b \in 1..Len(T.p) : T.f[a][b] < 0 THEN Whatever
                 ELSE Exactly(One * Pow2(T.f[At(T.x, x)][At(T.p, p)]))
            ELSE IF ~T.log THEN Exactly((One * Bilinear(T, i, j, p, x)) \div Area(T, i, j))
            ELSE IF \E c \in Corners(T, i, j) : T.f[c[2]][c[1]] < 0 /\ Weight(T, c, i, j, p, x) # 0 THEN Exactly(0)
            ELSE LET val == IF Bilinear(T, i, j, p, x) % Area(T, i, j) # 0 THEN Whatever
                            ELSE IF \E c \in Corners(T, i, j) : T.f[c[2]][c[1]] < 0 /\ Weight(T, c, i, j, p, x) = 0
                                 THEN Exactly(One * Pow2(SumTo([k \in 1..4 |-> LET c == CASE k = 1 -> <<i, j>> [] k = 2 -> <<i+1, j>> [] k = 3 -> <<i, j+1>> [] k = 4 -> <<i+1, j+1>>
                                                                     IN Weight(T, c, i, j, p, x) * T.f[c[2]][c[1]]], 4) \div Area(T, i, j)))
                                 ELSE Exactly(One * Pow2(Bilinear(T, i, j, p, x) \div Area(T, i, j)))
                 IN IF \E c \in touching : T.f[c[2]][c[1]] < 0 THEN [val EXCEPT !.s = @ \cup {0}] ELSE val
-----------------------------------------------------------------------------
(* Legendre modes (CODE): P_(k-1) at minus the pitch, in units of 1/16: any mode at the pitches -1 and 1, the first
   eight at 0, the first four at -1/2 and 1/2 *)
Leg(x, k) == CASE x = 4 -> (IF k % 2 = 1 THEN 16 ELSE -16) [] x = -4 -> 16 [] x = 0 -> <<16, 0, -8, 0, 6, 0, -5, 0>>[k]
               [] x = 2 -> <<16, -8, -2, 7>>[k] [] x = -2 -> <<16, 8, -2, -7>>[k]
LegKnown(T, x) == CASE x \in {-4, 4} -> TRUE [] x = 0 -> Len(T.f) <= 8 [] x \in {-2, 2} -> Len(T.f) <= 4 [] OTHER -> FALSE
ModeAt(T, k, p) == LET i == Interval(T.p, p)
                   IN ((T.p[i+1] - p) * T.f[k][i] + (p - T.p[i]) * T.f[k][i+1]) * (4 \div (T.p[i+1] - T.p[i]))   \* in quarters
CodeSum(T, p, x) == SumTo([k \in 1..Len(T.f) |-> Leg(x, k) * ModeAt(T, k, p)], Len(T.f))                            \* 1/64
U64 == One \div 64
CodeVal(T, p, x) == IF p < T.p[1] \/ p > T.p[Len(T.p)] THEN Exactly(0)
                    ELSE IF ~LegKnown(T, x) \/ (T.it # "linear" /\ ~On(T.p, p)) THEN Whatever
                    ELSE LET s == CodeSum(T, p, x) IN Exactly(IF s < 0 THEN 0 ELSE U64 * s)
(* the same function put on a grid of pitches, evenly spaced in the pitch or in its angle *)
GridPitches(n, theta) == IF n = 2 THEN {-4, 4} ELSE IF n = 3 THEN {-4, 0, 4} ELSE IF n = 5 /\ ~theta THEN {-4, -2, 0, 2, 4} ELSE IF n % 2 = 1 THEN {-4, 0, 4} ELSE {-4, 4}
AllPitches(n, theta) == n \in {2, 3} \/ (n = 5 /\ ~theta)       \* every pitch of the grid is one of those
CodeGrid(T, p, x) == IF p < T.p[1] \/ p > T.p[Len(T.p)] \/ x < -4 \/ x > 4 THEN Exactly(0)
                     ELSE LET G == GridPitches(T.n, T.theta) IN
                     IF ~On(T.p, p) \/ x \notin G \/ ~LegKnown(T, x) THEN Whatever
                     ELSE LET s == CodeSum(T, p, x)  i == At(T.p, p)
                              near == IF ~AllPitches(T.n, T.theta) \/ (\E y \in G : ~LegKnown(T, y)) THEN TRUE
                                      ELSE \E k \in {i-1, i, i+1} \cap 1..Len(T.p), y \in G : (T.n = 5 => y \in {x-2, x, x+2}) /\ CodeSum(T, T.p[k], y) <= 0
                          IN IF ~T.log THEN Exactly(U64 * s) ELSE IF s <= 0 THEN Exactly(0) ELSE IF near THEN [any |-> FALSE, s |-> {0, U64 * s}] ELSE Exactly(U64 * s)
MomVal(T, p, x) == CASE T.kind = "grid" -> GridVal(T, p, x) [] T.kind = "unit" -> Exactly(One)
                     [] T.kind = "code" -> CodeVal(T, p, x) [] T.kind = "codegrid" -> CodeGrid(T, p, x)
-----------------------------------------------------------------------------
(* radial interpolation: R is a sequence of <<radius, table>> with increasing radii *)
Mix(a, wa, b, wb, d) == IF wa = 0 THEN [b EXCEPT !.s = {(wb * n) \div d : n \in @}] ELSE IF wb = 0 THEN [a EXCEPT !.s = {(wa * n) \div d : n \in @}]
                        ELSE IF a.any \/ b.any \/ (\E m \in a.s, n \in b.s : (wa * m + wb * n) % d # 0) THEN Whatever ELSE [any |-> FALSE, s |-> {(wa * m + wb * n) \div d : m \in a.s, n \in b.s}]
Radii(R) == [i \in 1..Len(R) |-> R[i][1]]
RadVal(R, rho, p, x) ==
    IF Len(R) = 1 THEN MomVal(R[1][2], p, x)
    ELSE LET i == Interval(Radii(R), rho)
         IN Mix(MomVal(R[i][2], p, x), R[i+1][1] - rho, MomVal(R[i+1][2], p, x), rho - R[i][1], R[i+1][1] - R[i][1])
Inside(R, rho) == R[1][1] <= rho /\ rho <= R[Len(R)][1]
Insert(R, r, T) == LET k == Cardinality({i \in 1..Len(R) : R[i][1] < r}) IN SubSeq(R, 1, k) \o <<<<r, T>>>> \o SubSeq(R, k+1, Len(R))
Below(R, r) == Cardinality({i \in 1..Len(R) : R[i][1] < r})
RECURSIVE InsertAll(_, _, _)
InsertAll(R, r, Ts) == IF r = <<>> THEN R ELSE InsertAll(Insert(R, Head(r), Head(Ts)), Tail(r), Tail(Ts))
-----------------------------------------------------------------------------
(* radial profiles: Gaussian reported as -log(value/height) times the squared width, Bessel in 1e-6 *)
Bessel8 == <<1000000, 977537, 911659, 806789, 669930, 510144, 337882, 164208>>
RECURSIVE Power(_, _)
Power(a, n) == IF n = 0 THEN 1 ELSE a * Power(a, n - 1)
In(P, rho) == P.a <= rho /\ rho < P.b
ProfVal(P, rho) ==      \* profiles with exact values
    IF P.kind = "uniform" THEN Exactly(One)
    ELSE IF ~In(P, rho) THEN Exactly(0)
    ELSE LET w == P.b - P.a  d == rho - P.a
         IN CASE P.kind = "linear" -> Exactly(One - (One * d) \div w)
              [] P.kind = "power" -> IF P.e = "0.5" THEN (IF 4 * d = w THEN Exactly(One \div 2) ELSE IF d = 0 THEN Exactly(One) ELSE Whatever)
                                     ELSE LET e == (CASE P.e = "0" -> 0 [] P.e = "1" -> 1 [] P.e = "2" -> 2 [] P.e = "3" -> 3) IN Exactly(One - (One * Power(d, e)) \div Power(w, e))
              [] P.kind = "gauss" -> IF rho = P.g[2] THEN Exactly((One \div 4) * P.g[1]) ELSE Whatever
              [] P.kind = "bessel" -> IF d = 0 THEN Exactly(One) ELSE Whatever
ProfAllowed(P, e) ==
    LET rho == e.r - e.ds IN
    CASE P.kind = "bessel" -> e.ret = "num" /\ (IF ~In(P, rho) THEN e.val = 0
             ELSE LET q == 8 * (rho - P.a)  w == P.b - P.a IN IF q % w = 0 THEN e.val - Bessel8[(q \div w) + 1] \in -2..2 ELSE e.val > 0 /\ e.val < 1000000)
      [] P.kind = "gauss" -> IF ~In(P, rho) THEN e.ret = "zero" ELSE e.ret = "num" /\ e.val = (rho - P.g[2]) * (rho - P.g[2])
      [] OTHER -> e.ret = "num" /\ Fits(ProfVal(P, rho), e.val)
BadProf(e) == e.kind # "uniform" /\ (e.a >= e.b \/ (e.kind = "gauss" /\ \E k \in 1..3 : e.g[k] <= 0))
-----------------------------------------------------------------------------
(* files. Each layout is described by what the file holds; Load gives the object, or that it is refused *)
Refuse == [k |-> "refused"]
Either == [k |-> "either"]
Table(q, log, cub) == [kind |-> "grid", p |-> q.p, x |-> q.x, f |-> q.f, log |-> log, cub |-> cub, flip |-> FALSE]
Rect(f, m, n) == Len(f) = m /\ \A i \in 1..Len(f) : Len(f[i]) = n
Negative(T) == T.log /\ \E a \in 1..Len(T.x), b \in 1..Len(T.p) : T.f[a][b] < -1
NewMom(T, refuseneg) == IF BadTable(T) \/ (refuseneg /\ Negative(T)) THEN Refuse ELSE [k |-> "m", T |-> T]
NewRad(r, Ts) == IF r = <<>> THEN Either
                 ELSE IF (\E i \in 1..Len(Ts) : BadTable(Ts[i])) \/ ~(Increasing(r) \/ Decreasing(r)) THEN Refuse
                 ELSE [k |-> "n", R |-> InsertAll(<<>>, r, Ts), ext |-> TRUE, dec |-> Len(r) > 1 /\ Decreasing(r)]
Shift(r, a) == [i \in 1..Len(r) |-> r[i] + a]
LoadSoft(e) == LET c == e.c  Ts == [i \in 1..Len(c.parts) |-> Table(c.parts[i], e.log, e.cub)]
    IN IF c.type \notin {"", "distribution/soft"} \/ c.miss # "" \/ Len(c.parts) < Len(c.r) \/ ~Increasing(c.r) THEN Refuse
       ELSE IF \E i \in 1..Len(c.r) : c.parts[i].mat \/ ~Rect(c.parts[i].f, Len(Ts[i].x), Len(Ts[i].p)) THEN Refuse
       ELSE IF e.rad >= Len(c.r) THEN Refuse
       ELSE IF e.rad >= 0 THEN (IF \E i \in 1..Len(c.r) : i # e.rad + 1 /\ BadTable(Ts[i]) THEN Either ELSE NewMom(Ts[e.rad+1], TRUE))
       ELSE NewRad(Shift(c.r, e.ax), SubSeq(Ts, 1, Len(c.r)))
(* one table per radius on common grids *)
LoadBlock(e, r) == LET c == e.c  Ts == [i \in 1..Len(c.f) |-> Table([p |-> c.p, x |-> c.x, f |-> c.f[i]], e.log, e.cub)]
    IN IF c.miss # "" \/ Len(c.f) # Len(r) \/ c.bad # "" THEN Refuse
       ELSE IF \E i \in 1..Len(r) : ~Rect(c.f[i], Len(c.x), Len(c.p)) THEN Refuse
       ELSE IF e.rad >= Len(r) THEN Refuse
       ELSE IF e.rad >= 0 THEN NewMom(Ts[e.rad+1], TRUE) ELSE NewRad(r, Ts)
LoadDream(e) == LET c == e.c  n == Len(c.f)  k == IF e.time < 0 THEN n + e.time ELSE e.time
    IN IF c.miss # "" \/ c.nt # n \/ k < 0 \/ k >= n \/ ~Increasing(c.r) \/ ~e.found THEN Refuse
       ELSE IF Len(c.f[k+1]) # Len(c.r) \/ \E i \in 1..Len(c.f[k+1]) : ~Rect(c.f[k+1][i], Len(c.x), Len(c.p)) THEN Refuse
       ELSE NewRad(Shift(c.r, e.ax), [i \in 1..Len(c.r) |-> Table([p |-> c.p, x |-> c.x, f |-> c.f[k+1][i]], e.log, e.cub)])
(* fewest points each method needs; beyond the linear one, only the grid points are specified *)
Fewest(it) == CASE it = "linear" -> 2 [] it = "cspline" -> 3 [] it = "akima" -> 5 [] it = "steffen" -> 3 [] it = "poly" -> 3 [] it = "none" -> 1000000
CodeTable(p, nleg, row, it) == [kind |-> "code", it |-> it, p |-> p, f |-> [k \in 1..nleg |-> [i \in 1..Len(p) |-> row[(k-1) * Len(p) + i]]]]
CodeBad(c, it) == c.miss # "" \/ c.nleg < 1 \/ (\E t \in 1..Len(c.f) : Len(c.f[t]) # c.nleg * Len(c.p)) \/ ~Increasing(c.p) \/ Len(c.p) < Fewest(it)
LoadCode(e) == LET c == e.c  n == Len(c.f)  k == IF e.time < 0 THEN n + e.time ELSE e.time
    IN IF CodeBad(c, e.it) \/ k < 0 \/ k >= n THEN Refuse ELSE [k |-> "m", T |-> CodeTable(c.p, c.nleg, c.f[k+1], e.it)]
LoadGocode(e) == LET c == e.c  n == Len(c.slices)  k == IF e.time < 0 THEN c.nt + e.time ELSE e.time
    IN IF c.type \notin {"", "distribution/gocode"} \/ c.miss # "" \/ ~Increasing(c.r) \/ k < 0 \/ k >= c.nt \/ k >= n THEN Refuse
       ELSE IF Len(c.slices[k+1]) < Len(c.r) \/ \E i \in 1..Len(c.r) : CodeBad(c.slices[k+1][i], e.it) \/ c.slices[k+1][i].f = <<>> THEN Refuse
       ELSE [k |-> "n", ext |-> TRUE, dec |-> FALSE, R |-> [i \in 1..Len(c.r) |-> <<c.r[i] + e.ax, LET q == c.slices[k+1][i] IN CodeTable(q.p, q.nleg, q.f[1], e.it)>>]]
Load(e) == CASE e.lay = "soft" -> LoadSoft(e) [] e.lay = "depr" -> LoadBlock(e, e.c.r) [] e.lay = "luke" -> LoadBlock(e, Shift(e.c.r, e.ax))
             [] e.lay = "dream" -> LoadDream(e) [] e.lay = "code" -> LoadCode(e) [] e.lay = "gocode" -> LoadGocode(e)
-----------------------------------------------------------------------------
(* programs over a pool of objects *)
Has(o, i) == i \in DOMAIN o
Put(o, i, x) == [j \in DOMAIN o \cup {i} |-> IF j = i THEN x ELSE o[j]]
Del(o, i) == [j \in DOMAIN o \ {i} |-> o[j]]
NewTable(e) == [kind |-> "grid", p |-> e.p, x |-> e.x, f |-> e.f, log |-> e.log, cub |-> e.cub, flip |-> FALSE]
Flip(T, v) == IF T.kind = "grid" THEN [T EXCEPT !.flip = v] ELSE T
(* the object made by a constructing operation, or refused/either *)
Made(o, e) ==
    CASE e.op = "new2" -> NewMom(NewTable(e), TRUE)
      [] e.op = "unit" -> [k |-> "m", T |-> [kind |-> "unit"]]
      [] e.op = "new3" -> [k |-> "n", R |-> <<>>, ext |-> TRUE, dec |-> FALSE]
      [] e.op = "init3" -> NewRad(e.r, [i \in 1..Len(e.r) |-> NewTable([e EXCEPT !.f = e.f[i]])])
      [] e.op = "prof" -> IF BadProf(e) THEN Refuse ELSE [k |-> "p", P |-> [kind |-> e.kind, a |-> e.a, b |-> e.b, e |-> e.e, g |-> e.g]]
      [] e.op = "load" -> Load(e)
      [] e.op = "togrid" -> [k |-> "m", T |-> [kind |-> "codegrid", p |-> o[e.from].T.p, f |-> o[e.from].T.f, log |-> e.log, n |-> e.n, theta |-> e.theta]]
Making == {"new2", "unit", "new3", "init3", "prof", "load", "togrid"}
Needs(e) == CASE e.op \in {"ins3"} -> {e.id} \cup (IF e.obj >= 0 THEN {e.obj} ELSE {})
              [] e.op \in {"ext", "flip2", "flip3", "evalp", "eval2", "eval3", "del"} -> {e.id}
              [] e.op \in {"clone", "togrid"} -> {e.from}
              [] e.op = "agree" -> {e.id, e.from}
              [] e.op = "prod" -> {e.m} \cup (IF e.p >= 0 THEN {e.p} ELSE {})
              [] OTHER -> {}
Missing(o, e) == \E i \in Needs(e) : ~Has(o, i)
(* table of a slot: its own, or that of a shared object *)
RECURSIVE Res(_, _)
Res(o, T) == IF T.kind = "ref" THEN Res(o, o[T.id].T) ELSE T
ResR(o, R) == [i \in 1..Len(R) |-> <<R[i][1], Res(o, R[i][2])>>]
SlotTable(e) == IF e.obj >= 0 THEN [kind |-> "ref", id |-> e.obj] ELSE NewTable(e)
InsBad(e) == e.obj < 0 /\ BadTable(NewTable(e))
RECURSIVE FlipRefs(_, _, _, _)
FlipRefs(o, R, v, i) == IF i > Len(R) THEN o
                        ELSE FlipRefs(IF R[i][2].kind = "ref" THEN [o EXCEPT ![R[i][2].id].T = Flip(@, v)] ELSE o, R, v, i + 1)
Vague(o, e) == \E i \in Needs(e) : Has(o, i) /\ o[i].k = "either"      \* an object the specification says nothing about
CloneOf(o, x) == CASE x.k \in {"m", "either"} -> x [] x.k = "p" -> x [] x.k = "n" -> [x EXCEPT !.R = ResR(o, @)]
                   [] x.k = "d" -> [k |-> "d", m |-> Res(o, x.m), P |-> x.P]
(* two objects that are the same function: equal once shared parts are looked up *)
Plainly(o, x) == CASE x.k = "m" -> [x EXCEPT !.T = Res(o, @)] [] x.k = "n" -> [x EXCEPT !.R = ResR(o, @)] [] x.k = "d" -> [x EXCEPT !.m = Res(o, @)] [] OTHER -> x
SameFunction(o, a, b) == o[a].k = o[b].k /\ Plainly(o, o[a]) = Plainly(o, o[b])
After(o, e) ==
    IF Missing(o, e) \/ e.ret = "gone" THEN o
    ELSE IF Vague(o, e) /\ e.op \notin {"clone", "del"} THEN (IF e.op \in Making /\ e.ret = "ok" THEN Put(o, e.id, Either) ELSE o)
    ELSE CASE e.op \in Making -> (LET x == Made(o, e) IN IF x.k = "refused" \/ e.ret = "exc" THEN o ELSE IF x.k = "either" THEN Put(o, e.id, x) ELSE Put(o, e.id, x))
           [] e.op = "ins3" -> IF InsBad(e) THEN Del(o, e.id) ELSE [o EXCEPT ![e.id].R = Insert(@, e.r, SlotTable(e))]
           [] e.op = "ext" -> [o EXCEPT ![e.id].ext = e.v]
           [] e.op = "flip2" -> [o EXCEPT ![e.id].T = Flip(@, e.v)]
           [] e.op = "flip3" -> LET q == FlipRefs(o, o[e.id].R, e.v, 1) IN [q EXCEPT ![e.id].R = [i \in 1..Len(@) |-> <<@[i][1], Flip(@[i][2], e.v)>>]]
           [] e.op = "clone" -> Put(o, e.id, CloneOf(o, o[e.from]))
           [] e.op = "prod" -> Put(o, e.id, [k |-> "d", m |-> [kind |-> "ref", id |-> e.m], P |-> IF e.p < 0 THEN [kind |-> "uniform"] ELSE o[e.p].P])
           [] e.op = "del" -> Del(o, e.id)
           [] OTHER -> o
Times(a, b) == IF a = Exactly(0) \/ b = Exactly(0) THEN Exactly(0) ELSE IF a.any \/ b.any THEN Whatever
               ELSE IF \A m \in a.s, n \in b.s : m % U64 = 0 /\ ((m \div U64) * n) % 64 = 0
                    THEN [any |-> FALSE, s |-> {((m \div U64) * n) \div 64 : m \in a.s, n \in b.s}] ELSE Whatever
Allowed(o, e) ==
    IF Missing(o, e) THEN e.ret = "gone"
    ELSE IF Vague(o, e) THEN TRUE
    ELSE CASE e.op \in Making -> (LET x == Made(o, e) IN CASE x.k = "refused" -> e.ret = "exc" [] x.k = "either" -> e.ret \in {"ok", "exc"} [] OTHER -> e.ret = "ok")
           [] e.op = "ins3" -> IF InsBad(e) THEN e.ret = "exc" ELSE e.ret = "num" /\ (o[e.id].dec \/ e.val = Below(o[e.id].R, e.r))
           [] e.op \in {"ext", "flip2", "flip3", "clone", "prod", "del"} -> e.ret = "ok"
           [] e.op = "agree" -> e.ret = "same" \/ (e.ret = "differ" /\ ~SameFunction(o, e.id, e.from))
           [] e.op = "evalp" -> ProfAllowed(o[e.id].P, e)
           [] e.op = "eval2" -> e.ret = "num" /\ Fits(MomVal(Res(o, o[e.id].T), e.p, e.x), e.val)
           [] e.op = "eval3" -> LET q == o[e.id]  rho == e.r - e.ds IN
                IF q.k = "d" THEN e.ret = "num" /\ Fits(Times(ProfVal(q.P, rho), MomVal(Res(o, q.m), e.p, e.x)), e.val)
                ELSE IF ~q.ext /\ ~Inside(q.R, rho) THEN e.ret = "exc"
                ELSE e.ret = "num" /\ Fits(RadVal(ResR(o, q.R), rho, e.p, e.x), e.val)
           [] OTHER -> FALSE
=============================================================================
