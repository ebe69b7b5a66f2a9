------------------------------ MODULE Integrator ------------------------------
(* The adaptive Runge-Kutta solver (Dormand-Prince 5(4)): a history of accepted steps, step-size control and
   dense output. Numbers are rationals (Rat); observed numbers are rationals when they are simple, <<0,0>> when
   not, and values are observed in millionths.
   Equations:
     poly  y_i' = sum_k c[i][k] t^(k-1)  (k = 1..5), but undefined (nan) or immense (big) strictly inside a window
     lin   y' = M y
     ric   y_i' = -y_i^2       (solution y0/(1+y0 t))
     aff   y_i' = y_i/(1+t)    (solution y0 (1+t))
   Step control: "std": an attempt with negligible error lets the step grow by max, one with immense error shrinks
   it by min; "flat" (exponent 0): both scale by the safety factor. An undefined error shrinks it by 1/10. *)
EXTENDS Rat, Sequences, SequencesExt, FiniteSets, TLC
Lt(x, y) == LET d == Sub(x, y) IN Known(d) /\ d[1] < 0
Le(x, y) == LET d == Sub(x, y) IN Known(d) /\ d[1] <= 0
MinR(x, y) == IF Le(x, y) THEN x ELSE y
MaxR(x, y) == IF Le(x, y) THEN y ELSE x
AbsR(x) == IF x[1] < 0 THEN Neg(x) ELSE x
Comp == {<<3,10>>, <<4,5>>, <<8,9>>, <<1,1>>}        \* where an attempt samples the equation, as far as it matters
RECURSIVE SumR(_, _)
SumR(f, n) == IF n = 0 THEN I(0) ELSE Add(f[n], SumR(f, n-1))
RECURSIVE SumI(_, _)
SumI(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumI(f, n-1)
-----------------------------------------------------------------------------
(* equations *)
PolyAt(c, t) == SumR([k \in 1..Len(c) |-> Mul(I(c[k]), Pow(t, k-1))], Len(c))
PolyInt(c, t) == SumR([k \in 1..Len(c) |-> Mul(<<1, 1>>, Mul(Rat(c[k], k), Pow(t, k)))], Len(c))
Deg(c) == LET S == {k \in 1..Len(c) : c[k] # 0} IN IF S = {} THEN 0 ELSE (CHOOSE k \in S : \A j \in S : j <= k) - 1
MaxDeg(eq, n) == LET S == {Deg(eq.c[i]) : i \in 1..n} IN CHOOSE d \in S : \A e \in S : e <= d
MatVec(M, y) == TLCEval([i \in 1..Len(y) |-> SumR([j \in 1..Len(y) |-> Mul(I(M[i][j]), y[j])], Len(y))])
(* the stability polynomial of the method applied to y' = My over a step h *)
RECURSIVE LinTerms(_, _, _, _, _)
LinTerms(M, v, h, k, acc) ==          \* v = (hM)^k y
    IF k = 7 THEN acc
    ELSE LET w == CASE k = 0 -> I(1) [] k = 1 -> I(1) [] k = 2 -> <<1,2>> [] k = 3 -> <<1,6>> [] k = 4 -> <<1,24>> [] k = 5 -> <<1,120>> [] k = 6 -> <<1,600>>
             mv == MatVec(M, v)
         IN LinTerms(M, TLCEval([i \in 1..Len(v) |-> Mul(h, mv[i])]), h, k+1, TLCEval([i \in 1..Len(v) |-> Add(acc[i], Mul(w, v[i]))]))
LinStep(M, y, h) == LinTerms(M, y, h, 0, [i \in 1..Len(y) |-> I(0)])
(* exact solution at time t of the initial value problem *)
Sol(o, t) == TLCEval([i \in 1..o.n |-> CASE o.eq.k = "poly" -> Add(o.y0[i], PolyInt(o.eq.c[i], t))
                                 [] o.eq.k = "ric" -> Div(o.y0[i], Add(I(1), Mul(o.y0[i], t)))
                                 [] o.eq.k = "aff" -> Mul(o.y0[i], Add(I(1), t))
                                 [] OTHER -> Unknown])
Rhs(o, t, y) == [i \in 1..o.n |-> CASE o.eq.k = "poly" -> PolyAt(o.eq.c[i], t)
                                    [] o.eq.k = "lin" -> MatVec(o.eq.M, y)[i]
                                    [] o.eq.k = "ric" -> Neg(Mul(y[i], y[i]))
                                    [] o.eq.k = "aff" -> Div(y[i], Add(I(1), t))]
-----------------------------------------------------------------------------
(* what becomes of an attempt of size h: ok, bad (immense error), nan, over (error above tolerance), any *)
HasWin(o) == o.eq.k = "poly" /\ o.eq.win # <<>>
InWin(o, x) == Lt(o.eq.win[1], x) /\ Lt(x, o.eq.win[2])
Decided(o, x) == Known(x) /\ (HasWin(o) => Known(Sub(x, o.eq.win[1])) /\ Known(Sub(x, o.eq.win[2])))
AtWall(o, T) == HasWin(o) /\ Le(o.eq.win[1], T) /\ Lt(T, o.eq.win[2])
Thousandths(x) == IF ~Known(x) THEN -1 ELSE IF Lt(I(30), x) THEN 30000 ELSE IF x[2] > 2000000 THEN -1 ELSE (x[1] * 1000) \div x[2]
(* error over tolerance of component i, in thousandths: the estimate of a t^4 is a h^5 71/270000 *)
ErrOf(o, i, T, h) ==
    LET a == IF Len(o.eq.c[i]) = 5 THEN o.eq.c[i][5] ELSE 0
        y1 == AbsR(Sol(o, T)[i])  y2 == AbsR(Sol(o, Add(T, h))[i])
        e == Mul3(Mul(I(a), <<71, 27>>), Pow(h, 5), Div(<<1, 10000>>, Mul(o.tol, Add(I(1), MaxR(y1, y2)))))
    IN IF a = 0 THEN 0 ELSE Thousandths(AbsR(e))
Dyadic(x) == Known(x) /\ 1073741824 % x[2] = 0
Class(o, T, h) ==
    IF o.eq.k = "lin" THEN (IF Le(I(1000), o.tol) THEN "ok" ELSE "any")
    ELSE IF o.eq.k # "poly" \/ ~Known(h) \/ ~Known(T) THEN "any"
    ELSE IF HasWin(o) /\ (\E c \in Comp : Add(T, Mul(c, h)) \in {Rat(o.eq.win[j][1], o.eq.win[j][2]) : j \in 1..2} /\ (c # I(1) \/ ~Dyadic(T) \/ ~Dyadic(h))) THEN "any"   \* rounding decides
    ELSE IF HasWin(o) /\ (\E c \in Comp : InWin(o, Add(T, Mul(c, h)))) THEN (IF o.eq.nan THEN "nan" ELSE "bad")
    ELSE IF \E c \in Comp : ~Decided(o, Add(T, Mul(c, h))) THEN "any"
    ELSE IF MaxDeg(o.eq, o.n) <= 3 THEN "ok"
    ELSE LET E == TLCEval([i \in 1..o.n |-> ErrOf(o, i, T, h)])
         IN IF \E i \in 1..o.n : E[i] < 0 THEN "any"
            ELSE LET s == SumI([i \in 1..o.n |-> (E[i] * E[i]) \div 1000], o.n)
                 IN IF s < 970 * o.n THEN "fine" ELSE IF s > 1030 * o.n THEN "over" ELSE "any"
(* next size to try after an attempt of size h *)
AfterReject(o, cls, h) == CASE cls = "nan" -> Mul(h, <<1, 10>>)
                            [] cls = "bad" -> Mul(h, IF o.flat THEN MaxR(o.safe, o.min) ELSE o.min)
                            [] OTHER -> IF o.flat /\ cls = "over" THEN Mul(h, MaxR(o.safe, o.min)) ELSE Unknown
AfterAccept(o, cls, h, rejected) ==
    LET s == IF o.flat THEN MaxR(o.min, MinR(o.safe, o.max)) ELSE o.max
        sure == IF o.flat THEN cls = "fine" \/ (cls = "ok" /\ s = o.max) ELSE cls = "ok"
    IN IF sure THEN Mul(h, IF rejected THEN MinR(s, I(1)) ELSE s) ELSE Unknown
Rejects(cls) == cls \in {"bad", "nan", "over", "any"}
Accepts(cls) == cls \in {"ok", "fine", "any"}
-----------------------------------------------------------------------------
(* an integrator: n, tol, min, max, safe, flat; eq; y0; pts: accepted points [t, y, v: observed values]; h: size to
   try next; dense: coefficients are kept from now on; full: they were kept for every step since the start;
   rej: the latest step needed several attempts *)
Fresh(e) == [n |-> e.n, tol |-> e.tol, min |-> e.min, max |-> e.max, safe |-> e.safe, flat |-> e.flat, eq |-> [k |-> "none"],
             y0 |-> <<>>, pts |-> <<>>, h |-> I(1), dense |-> TRUE, full |-> TRUE, rej |-> FALSE]
Start(o, y) == [o EXCEPT !.y0 = y, !.h = I(1), !.full = TRUE, !.rej = FALSE]
NearAll(x, v, n) == \A i \in 1..n : Near(x[i], v[i])
Close(a, b, tol) == a - b <= tol /\ b - a <= tol
(* the attempts of a step, as observed, explained one after the other; result [ok, cls and size of the last] *)
Try(o, T, w, seen) ==            \* w: so far; h: size to try next
    LET size == IF Known(w.h) THEN w.h ELSE seen
        cls == Class(o, T, size)
    IN TLCEval([ok |-> w.ok /\ (Known(w.h) /\ Known(seen) => w.h = seen) /\ Rejects(w.cls), cls |-> cls, size |-> size, h |-> AfterReject(o, cls, size)])
Walk(o, T, h, att) == FoldLeft(LAMBDA w, seen : Try(o, T, w, seen), [ok |-> TRUE, cls |-> "any", size |-> h, h |-> h], att)
(* ratios of consecutive attempts, in millionths; the first: to the last attempt of the previous step; -1: not known *)
Mil(x) == Millionths(x)
RatioOk(o, r, k, first) ==
    \/ r < 0
    \/ (k > 1 /\ (Close(r, 100000, 3) \/ (r >= Mil(o.min) - 3 /\ r <= Mil(MaxR(o.min, o.safe)) + 3)))
    \/ (k = 1 /\ ~first /\ r >= Mil(o.min) - 3 /\ r <= (IF o.rej THEN 1000003 ELSE Mil(o.max) + 30))
T0(o) == o.pts[Len(o.pts)].t
StepY(o, h) == TLCEval(IF o.eq.k = "poly" THEN Sol(o, Add(T0(o), h))
               ELSE IF o.eq.k = "lin" THEN LinStep(o.eq.M, o.pts[Len(o.pts)].y, h)
               ELSE [i \in 1..o.n |-> Unknown])
NearWall(o) == LET d == Sub(Rat(o.pts[Len(o.pts)].us, 1000000), o.eq.win[1]) IN HasWin(o) /\ Lt(<<-3, 1000000>>, d) /\ Lt(d, <<3, 1000000>>)
StepAllowed(o, e) ==
    IF o.pts = <<>> THEN e.ret = "exc"
    ELSE LET w == TLCEval(Walk(o, T0(o), o.h, e.att)) IN
         /\ e.kept
         /\ \A k \in 1..Len(e.ratio) : RatioOk(o, e.ratio[k], k, Len(o.pts) = 1)
         /\ IF e.ret = "exc" THEN (AtWall(o, T0(o)) \/ NearWall(o)) /\ e.count = Len(o.pts)
            ELSE /\ e.ret = "ok" /\ ~e.cut
                 /\ (HasWin(o) /\ e.tus >= 0 => ~InWin(o, Rat(e.tus - 2, 1000000)) \/ ~InWin(o, Rat(e.tus + 2, 1000000)))
                 /\ w.ok /\ Accepts(w.cls)
                 /\ e.inc /\ e.same /\ e.count = Len(o.pts) + 1
                 /\ Known(e.t) /\ Known(Add(T0(o), w.size)) => e.t = Add(T0(o), w.size)
                 /\ NearAll(StepY(o, w.size), e.v, o.n)
                 /\ (o.eq.k \in {"poly", "lin"} => NearAll(Rhs(o, Add(T0(o), w.size), StepY(o, w.size)), e.d, o.n))
                 /\ (o.eq.k \in {"ric", "aff"} => LET x == Sol(o, Rat(e.tus, 1000000)) IN
                        e.tus >= 0 => \A i \in 1..o.n : Decides(x[i]) => Close(Millionths(x[i]), e.v[i], 6))
StepAfter(o, e) ==
    IF o.pts = <<>> THEN o
    ELSE LET w == TLCEval(Walk(o, T0(o), o.h, e.att)) IN
         IF e.ret = "exc" THEN [o EXCEPT !.h = Unknown, !.rej = TRUE]
         ELSE LET t == IF Known(Add(T0(o), w.size)) THEN Add(T0(o), w.size) ELSE e.t IN
              [o EXCEPT !.pts = Append(@, [t |-> t, y |-> StepY(o, w.size), v |-> e.v, us |-> IF e.op = "init" THEN 0 ELSE e.tus]),
                        !.h = AfterAccept(o, w.cls, w.size, Len(e.att) > 1),
                        !.full = @ /\ o.dense, !.rej = Len(e.att) > 1]
-----------------------------------------------------------------------------
(* many steps of the same size at once *)
ManyAllowed(o, e) == /\ o.max = I(1) /\ ~HasWin(o) /\ o.h = I(1)
                     /\ e.ret = "ok" /\ e.inc /\ e.same /\ e.kept /\ e.count = Len(o.pts) + e.k
                     /\ e.t = Add(T0(o), I(e.k)) /\ NearAll(Sol(o, e.t), e.v, o.n)
ManyAfter(o, e) == LET l == Len(o.pts)  T == T0(o) IN
    [o EXCEPT !.pts = [i \in 1..(l + e.k) |-> IF i <= l THEN o.pts[i]
                                              ELSE [t |-> Add(T, I(i - l)), y |-> Sol(o, Add(T, I(i - l))), v |-> <<>>, us |-> -1]],
              !.full = @ /\ o.dense]
-----------------------------------------------------------------------------
(* dense output: request [i, f]: the point a fraction f into the step after the i-th point (0-based) *)
Inside(o, q) == Le(I(0), Add(I(q.i), q.f)) /\ Le(Add(I(q.i), q.f), I(Len(o.pts) - 1))
IsNode(q) == q.f[2] = 1
TimeOf(o, q) == IF Len(o.pts) = 1 THEN Add(o.pts[1].t, q.f)
                ELSE LET a == o.pts[q.i+1].t  b == o.pts[q.i+2].t IN Add(a, Mul(q.f, Sub(b, a)))
DenseOk(o) == Len(o.pts) >= 2 /\ o.full
NodeVal(o, j, v) == LET p == o.pts[j] IN
    IF p.v # <<>> THEN \A i \in 1..o.n : Close(p.v[i], v[i], 2) \/ p.v[i] = -2000000001 ELSE NearAll(p.y, v, o.n)
InsideVal(o, t, tus, v) == CASE o.eq.k = "poly" /\ MaxDeg(o.eq, o.n) <= 3 -> NearAll(Sol(o, t), v, o.n)
                             [] o.eq.k \in {"ric", "aff"} /\ tus >= 0 ->
                                    LET x == Sol(o, Rat(tus, 1000000)) IN \A i \in 1..o.n : Decides(x[i]) => Close(Millionths(x[i]), v[i], 8)
                             [] OTHER -> TRUE
DenseVal(o, q, v, tus) == IF IsNode(q) /\ Inside(o, q) THEN NodeVal(o, q.i + 1 + q.f[1], v) ELSE InsideVal(o, TimeOf(o, q), tus, v)
DenseAllowed(o, e) ==
    IF DenseOk(o) /\ \A j \in 1..Len(e.q) : Inside(o, e.q[j])
    THEN e.ret = "ok" /\ \A j \in 1..Len(e.q) : DenseVal(o, e.q[j], e.out[j], e.tus[j])
    ELSE e.ret = "exc"
(* nt equidistant times from one point to another *)
RangeAllowed(o, e) ==
    LET a == TimeOf(o, e.a)  b == TimeOf(o, e.b) IN
    IF e.nt = 0 THEN e.ret = "exc"
    ELSE IF e.nt = 1 /\ e.a # e.b THEN (IF Known(a) /\ Known(b) /\ a # b THEN e.ret = "exc" ELSE TRUE)
    ELSE IF DenseOk(o) /\ Inside(o, e.a) /\ Inside(o, e.b)
    THEN /\ e.ret = "ok"
         /\ \A j \in 1..e.nt : LET t == IF e.nt = 1 THEN a ELSE Add(a, Mul(Rat(j-1, e.nt-1), Sub(b, a))) IN
               /\ Near(t, e.tus[j])
               /\ InsideVal(o, t, e.tus[j], e.out[j])
         /\ (IsNode(e.a) => NodeVal(o, e.a.i + 1 + e.a.f[1], e.out[1]))
         /\ (IsNode(e.b) => NodeVal(o, e.b.i + 1 + e.b.f[1], e.out[e.nt]))
         /\ e.ends
    ELSE e.ret = "exc"
-----------------------------------------------------------------------------
Allowed(m, e) ==
    IF e.op = "new" THEN e.ret = "ok"
    ELSE LET o == m[e.id] IN
    CASE e.op = "eq" -> TRUE
      [] e.op = "init" -> /\ e.ret = "ok" /\ e.count = 1 /\ e.same /\ e.t = <<0, 1>> /\ NearAll([i \in 1..o.n |-> I(e.y[i])], e.v, o.n)
                          /\ NearAll(Rhs([o EXCEPT !.eq = o.eq], I(0), [i \in 1..o.n |-> I(e.y[i])]), e.d, o.n)
      [] e.op = "step" -> StepAllowed(o, e)
      [] e.op = "many" -> ManyAllowed(o, e)
      [] e.op = "toggle" -> e.res = e.on
      [] e.op = "dense" -> DenseAllowed(o, e)
      [] e.op = "range" -> RangeAllowed(o, e)
      [] OTHER -> FALSE
Set1(m, i, v) == [j \in DOMAIN m \cup {i} |-> IF j = i THEN v ELSE m[j]]
After(m, e) ==
    IF e.op = "new" THEN Set1(m, e.id, Fresh(e))
    ELSE LET o == m[e.id] IN
    CASE e.op = "eq" -> [m EXCEPT ![e.id].eq = e.eq]
      [] e.op = "init" -> LET y == [i \in 1..o.n |-> I(e.y[i])] IN [m EXCEPT ![e.id] = [Start(o, y) EXCEPT !.pts = <<[t |-> I(0), y |-> y, v |-> e.v, us |-> IF e.op = "init" THEN 0 ELSE e.tus]>>]]
      [] e.op = "step" -> [m EXCEPT ![e.id] = StepAfter(o, e)]
      [] e.op = "many" -> [m EXCEPT ![e.id] = ManyAfter(o, e)]
      [] e.op = "toggle" -> [m EXCEPT ![e.id].dense = e.on]
      [] OTHER -> m
=============================================================================
