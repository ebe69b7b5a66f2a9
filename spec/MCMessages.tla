----------------------------- MODULE MCMessages -----------------------------
(* Every mix of up to four parts (literal, text, whole numbers), short and long, for each class. *)
EXTENDS Messages, Json, TLC
CONSTANTS MaxParts
VARIABLES parts, cls
Rep(c, n) == [i \in 1..n |-> c]
Lens == {0, 1, 499, 500, 998, 999, 1000, 1001}
Parts == {[k |-> "lit", n |-> n] : n \in {0, 3, 998, 999, 1000, 1001}} \cup {[k |-> "s", n |-> n] : n \in Lens} \cup {[k |-> "d", n |-> 0], [k |-> "z", n |-> 0]}
Args(ps) == {i \in 1..Len(ps) : ps[i].k # "lit"}
Init == parts = <<>> /\ cls \in {"soft", "sfile", "conf", "at"}
Next == Len(parts) < MaxParts /\ \E p \in Parts : (IF parts = <<>> THEN TRUE ELSE \lnot (parts[Len(parts)].k = "lit" /\ p.k = "lit")) /\ parts' = Append(parts, p) /\ cls' = cls
Spec == Init /\ [][Next]_<<parts, cls>>
X(p) == IF p.k = "d" THEN <<45, 55>> ELSE IF p.k = "z" THEN Dec(1234567) ELSE Rep(97, p.n)
E(ps) == [cls |-> cls, file |-> <<102>>, line |-> 12, pos |-> 0, parts |-> [i \in 1..Len(ps) |-> [k |-> ps[i].k, x |-> X(ps[i])]]]
RECURSIVE Sum(_)
Sum(ps) == IF ps = <<>> THEN 0 ELSE Len(X(Head(ps))) + Sum(Tail(ps))
Whole == Len(Text(E(parts))) = Sum(parts) + (IF cls = "at" THEN 8 ELSE 0)
Emitted == PrintT("EMIT " \o ToJson([cls |-> cls, parts |-> parts]))
=============================================================================
