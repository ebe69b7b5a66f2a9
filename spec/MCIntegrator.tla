----------------------------- MODULE MCIntegrator -----------------------------
(* Every history of bounded length of one integrator, for every equation and setting of a small set: the step
   control of the specification is run by itself (attempts until one is accepted, or the step vanishes). *)
EXTENDS Integrator, Json
CONSTANTS Depth, Eqs, Sets
VARIABLES o, cfg, hist
vars == <<o, cfg, hist>>
Window(k) == CASE k = 1 -> <<>> [] k = 2 -> <<<<8, 7>>, <<10, 7>>>> [] k = 3 -> <<<<1, 1>>, <<60, 1>>>> [] k = 4 -> <<<<3, 7>>, <<4, 7>>>> [] k = 5 -> <<<<16, 7>>, <<20, 7>>>>
Equation(k) == [k |-> "poly", c |-> <<<<1, -2, 3>>>>, win |-> Window(k), nan |-> k % 2 = 1]
Setting(k) == [op |-> "new", id |-> 0, n |-> 1, tol |-> <<1, 1000000000>>, flat |-> FALSE, safe |-> <<9, 10>>,
               min |-> IF k = 1 THEN <<1, 2>> ELSE <<1, 4>>, max |-> CASE k = 1 -> <<2, 1>> [] k = 2 -> <<4, 1>> [] k = 3 -> <<1, 1>>]
Q(i, n, d) == [i |-> i, f |-> <<n, d>>]
Ops == {[op |-> "step", id |-> 0], [op |-> "init", id |-> 0, y |-> <<2>>], [op |-> "toggle", id |-> 0, on |-> TRUE], [op |-> "toggle", id |-> 0, on |-> FALSE],
        [op |-> "dense", id |-> 0, q |-> <<Q(1, 1, 2), Q(0, 1, 1), Q(9, 1, 1), Q(0, 0, 1)>>], [op |-> "range", id |-> 0, a |-> Q(0, 0, 1), b |-> Q(9, 1, 1), nt |-> 4]}
(* the attempts of one step, up to 40 *)
RECURSIVE Attempts(_, _, _)
Attempts(x, h, k) == LET cls == Class(x, T0(x), h) IN
    IF k = 0 \/ ~Known(h) \/ cls = "any" THEN <<Unknown>> ELSE IF Accepts(cls) THEN <<h>> ELSE <<h>> \o Attempts(x, AfterReject(x, cls, h), k-1)
DoStep(x) == LET a == TLCEval(Attempts(x, x.h, 40))  ok == Known(a[Len(a)])
                 ev == [op |-> "step", ret |-> IF ok THEN "ok" ELSE "exc", att |-> a, v |-> <<0>>, tus |-> -1, t |-> IF ok THEN Add(T0(x), a[Len(a)]) ELSE Unknown]
             IN StepAfter(x, ev)
StartEv(y) == [op |-> "init", id |-> 0, y |-> y, v |-> <<0>>]
M(x) == [i \in {0} |-> x]
Init == /\ cfg \in Eqs \X Sets
        /\ o = After(M([Fresh(Setting(cfg[2])) EXCEPT !.eq = Equation(cfg[1])]), StartEv(<<1>>))[0] /\ hist = <<>>
Do(e) == /\ hist' = Append(hist, e) /\ cfg' = cfg
         /\ o' = CASE e.op = "step" -> DoStep(o) [] e.op = "init" -> After(M(o), StartEv(e.y))[0] [] e.op = "toggle" -> [o EXCEPT !.dense = e.on] [] OTHER -> o
Next == Len(hist) < Depth /\ \E e \in Ops : Do(e)
Spec == Init /\ [][Next]_vars
P == o.pts
Strict == \A i \in 1..(Len(P) - 1) : Lt(P[i].t, P[i+1].t) \/ ~Known(P[i+1].t)
Outside == HasWin(o) => \A i \in 1..Len(P) : ~InWin(o, P[i].t)
Exact == \A i \in 1..Len(P) : Known(P[i].t) => P[i].y = Sol(o, P[i].t)
Positive == Known(o.h) => o.h[1] > 0
Bounded == Known(o.h) /\ Len(P) > 1 /\ Known(T0(o)) /\ Known(P[Len(P)-1].t) =>          \* never grows by more than max over the step just taken, not at all after a rejection
              Le(o.h, Mul(Sub(T0(o), P[Len(P)-1].t), IF o.rej THEN I(1) ELSE o.max))
DenseWhenFull == cfg[1] # 3 => (o.full <=> \A i \in 1..Len(hist) :                                      \* no step since the latest start while coefficients were not kept
              (hist[i].op = "step" /\ (\A j \in i..Len(hist) : hist[j].op # "init")) =>
                 LET S == {j \in 1..i : hist[j].op = "toggle"} IN S = {} \/ hist[CHOOSE j \in S : \A l \in S : l <= j].on)
Kept == [][Len(o'.pts) = 1 \/ (Len(P) <= Len(o'.pts) /\ SubSeq(o'.pts, 1, Len(P)) = P)]_vars
Emitted == Len(hist) = Depth => PrintT("EMIT " \o ToJson([ops |-> <<Setting(cfg[2]), [op |-> "eq", id |-> 0, eq |-> Equation(cfg[1])], [op |-> "init", id |-> 0, y |-> <<1>>]>> \o hist]))
=============================================================================
