--------------------------------- MODULE Quad ---------------------------------
(* Integration around a peak. The function is tabulated on the points reachable from the start by whole spacings:
   f[i], i = 1..n, zero elsewhere; only points lo < i < hi count. Cut-off cn/cd of the value at the peak.
   Results are in halves of a spacing. *)
EXTENDS Integers, Sequences, FiniteSets
F(q, i) == IF i > q.lo /\ i < q.hi /\ i \in 1..Len(q.f) THEN q.f[i] ELSE 0
Max2(a, b) == IF a > b THEN a ELSE b
(* one run: at peak p, k spacings out, twice the sum s so far; st: "go" or "done" *)
Begin(q, p) == [p |-> p, k |-> 1, s |-> 2 * q.f[p], st |-> "go"]
Beyond(q, r) == Max2(F(q, r.p + r.k), F(q, r.p - r.k)) * q.cd > q.f[r.p] * q.cn
Higher(q, r) == {p \in {r.p + r.k, r.p - r.k} : F(q, p) > q.f[r.p]}
NextRuns(q, r) ==
    IF ~Beyond(q, r) THEN {[r EXCEPT !.s = @ + F(q, r.p + r.k) + F(q, r.p - r.k), !.st = "done"]}
    ELSE IF Higher(q, r) # {} THEN {Begin(q, p) : p \in Higher(q, r)}
    ELSE {[r EXCEPT !.s = @ + 2 * (F(q, r.p + r.k) + F(q, r.p - r.k)), !.k = @ + 1]}
RECURSIVE Results(_, _)
Results(q, R) == LET go == {r \in R : r.st = "go"} IN
    IF go = {} THEN {r.s : r \in R} ELSE Results(q, (R \ go) \cup UNION {NextRuns(q, r) : r \in go})
Answers(q) == Results(q, {Begin(q, q.p)})
(* independent account of a finished run at p: every point nearer than k counts fully, those at k half *)
RECURSIVE SumF(_, _, _)
SumF(q, a, b) == IF a > b THEN 0 ELSE F(q, a) + SumF(q, a + 1, b)
Unimodal(g) == \E m \in 1..Len(g) : (\A i \in 1..(m-1) : g[i] <= g[i+1]) /\ (\A i \in m..(Len(g)-1) : g[i] >= g[i+1])
-----------------------------------------------------------------------------
(* locating the maximum of a function rising to r and falling after it, on 0..2pi: distance from r in millionths *)
Allowed(o, e) ==
    CASE e.op = "sum" -> e.ret = "ok" /\ e.res \in Answers(e)
      [] e.op = "zero" -> e.ret = "exc"
      [] e.op = "max" -> e.ret = "ok" /\ e.dist <= e.tol + 2
      [] e.op = "auto" -> e.ret = "ok" /\ e.same
      [] OTHER -> FALSE
After(o, e) == o
=============================================================================
