-------------------------------- MODULE MCDist --------------------------------
(* Building a radial distribution by insertions in every order; the laws of interpolation on every small
   table and radius; every order of insertion is emitted to be replayed in the code. *)
EXTENDS Dist, Json, TLC
CONSTANTS MaxRadii, Vals
Slots == 0..(MaxRadii - 1)
TabOf(r) == [kind |-> "grid", p |-> <<0, 2>>, x |-> <<-1, 1>>, f |-> <<<<r, 3 - r>>, <<2 * r, r * r>>>>, log |-> FALSE, cub |-> FALSE, flip |-> FALSE]
RECURSIVE RadiusOf(_)
RadiusOf(k) == IF k = 0 THEN 0 ELSE RadiusOf(k - 1) + <<1, 2, 4, 1, 2>>[k]
VARIABLES order, R, tab
vars == <<order, R, tab>>
Init == order = <<>> /\ R = <<>> /\ tab \in [p : {<<0, 1>>, <<0, 2, 4>>}, x : {<<-2, 0>>, <<-4, 0, 2>>}, f : {<<>>}]
Add == \E k \in Slots : /\ \A i \in 1..Len(order) : order[i] # k
                        /\ order' = Append(order, k) /\ R' = Insert(R, RadiusOf(k), TabOf(RadiusOf(k))) /\ UNCHANGED tab
Next == Add
Spec == Init /\ [][Next]_vars
Sorted == Increasing(Radii(R))
SameSet == {R[i][1] : i \in 1..Len(R)} = {RadiusOf(order[i]) : i \in 1..Len(order)}
Query == {<<p, x>> : p \in -1..3, x \in -2..2}
Stored == \A i \in 1..Len(R) : \A q \in Query : RadVal(R, R[i][1], q[1], q[2]) = MomVal(R[i][2], q[1], q[2])
Between == Len(R) < 2 \/ \A rho \in R[1][1]..R[Len(R)][1] : \A q \in Query :
    LET v == RadVal(R, rho, q[1], q[2])  i == Interval(Radii(R), rho)  a == MomVal(R[i][2], q[1], q[2])  b == MomVal(R[i+1][2], q[1], q[2])
    IN \A n \in v.s : \E m \in a.s, k \in b.s : (m <= n /\ n <= k) \/ (k <= n /\ n <= m)
(* the interpolant of every table over Vals passes through its entries, stays between them, flips about zero pitch and vanishes outside *)
Tables == {[kind |-> "grid", p |-> tab.p, x |-> tab.x, f |-> f, log |-> FALSE, cub |-> FALSE, flip |-> FALSE] :
              f \in [1..Len(tab.x) -> [1..Len(tab.p) -> Vals]]}
TableLaws == order # <<>> \/ \A T \in Tables :
    /\ \A i \in 1..Len(T.p), j \in 1..Len(T.x) : GridVal(T, T.p[i], T.x[j]) = Exactly(One * T.f[j][i])
    /\ \A p \in -1..5, x \in -5..3 : /\ GridVal(Flip(T, TRUE), p, 0 - x) = GridVal(T, p, x)
                                     /\ \A n \in GridVal(T, p, x).s : 0 <= n /\ n <= One * 2
                                     /\ (p \in T.p[1]..T.p[Len(T.p)] /\ x \in T.x[1]..T.x[Len(T.x)]) \/ GridVal(T, p, x) = Exactly(0)
Emit == Len(order) = 0 \/ PrintT("EMIT " \o ToJson(order))
=============================================================================
