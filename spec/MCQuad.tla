-------------------------------- MODULE MCQuad --------------------------------
(* Every table of a few small values, limits, cut-off and starting point, one spacing at a time *)
EXTENDS Quad, Json, TLC
CONSTANTS N, V, Cuts
VARIABLES q, r
vars == <<q, r>>
Cut(k) == CASE k = 1 -> <<0, 1>> [] k = 2 -> <<1, 4>> [] k = 3 -> <<1, 2>> [] k = 4 -> <<1, 1>>
Init == /\ \E g \in [1..N -> 0..V], lo \in 0..N, hi \in 1..(N+1), c \in Cuts, p \in 1..N :
              lo < p /\ p < hi /\ q = [op |-> "sum", f |-> g, lo |-> lo, hi |-> hi, cn |-> Cut(c)[1], cd |-> Cut(c)[2], p |-> p]
        /\ r = Begin(q, q.p)
Next == r.st = "go" /\ r' \in NextRuns(q, r) /\ q' = q
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InLimits == q.lo < r.p /\ r.p < q.hi
NeverDown == q.f[r.p] >= q.f[q.p]
Account == r.s = 2 * SumF(q, r.p - r.k + 1, r.p + r.k - 1) + (IF r.st = "done" THEN F(q, r.p + r.k) + F(q, r.p - r.k) ELSE 0)
Whole == (r.st = "done" /\ q.cn = 0) => r.s <= 2 * SumF(q, 1, N)                     \* nothing counts twice
Top == (r.st = "done" /\ Unimodal(SubSeq(q.f, q.lo + 1, q.hi - 1)) /\ q.cn = 0 /\ q.f[r.p] > 0 /\ (\A i \in (q.lo+1)..(q.hi-1) : q.f[i] > 0)) => r.s = 2 * SumF(q, 1, N)
Climb == [][q.f[r'.p] > q.f[r.p] \/ (r'.p = r.p /\ (r'.k = r.k + 1 \/ r'.st = "done"))]_vars
Ends == <>(r.st = "done")
Emitted == (r = Begin(q, q.p)) => PrintT("EMIT " \o ToJson(q))
=============================================================================
