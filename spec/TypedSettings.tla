--------------------------- MODULE TypedSettings ---------------------------
(* Settings holding typed data: set, overwrite, copy, destroy, read.         *)
(* A slot is [ty, vals]; values are texts (character codes): numbers in      *)
(* decimal, truth values as true/false, text as itself.                      *)
EXTENDS ConfigValues, TLC
NumTys == {"i32", "i64", "u32", "u64", "real"}
TrueT == <<116,114,117,101>>  FalseT == <<102,97,108,115,101>>
None == [ty |-> "none", vals |-> <<>>]

\* an integral decimal number as integer text
Integral(t) == IsDecText(t) /\ SmallExp(t) /\ (Digits(t) = <<>> \/ Exp10(t) >= Len(Digits(t)))
AsInt(t) == LET d == Digits(t) IN
            IF d = <<>> THEN <<48>>
            ELSE (IF Neg(t) THEN <<45>> ELSE <<>>) \o d \o [i \in 1..(Exp10(t) - Len(d)) |-> 48]
HoldsInt(t) == Integral(t) /\ Exp10(t) <= 20
IntIn(t, P(_)) == HoldsInt(t) /\ P(AsInt(t))

\* what a script setting with these values becomes
FromScript(vals) ==
    LET n == Len(vals)  v == vals[1] IN
    IF n = 1 /\ v \in Trues \cup Falses THEN [ty |-> "bool", vals |-> <<IF v \in Trues THEN TrueT ELSE FalseT>>]
    ELSE IF n = 1 /\ IsI32(v) THEN [ty |-> "i32", vals |-> vals]
    ELSE IF n = 1 /\ IsI64(v) THEN [ty |-> "i64", vals |-> vals]
    ELSE IF n = 1 /\ IsU64(v) THEN [ty |-> "u64", vals |-> vals]
    ELSE IF \A i \in 1..n : IsDecText(vals[i]) THEN [ty |-> "real", vals |-> vals]
    ELSE [ty |-> "str", vals |-> vals]

After(st, o) ==
    CASE o.op = "set"     -> [st EXCEPT ![o.s] = [ty |-> o.ty, vals |-> o.vals]]
      [] o.op \in {"over", "copy"} -> [st EXCEPT ![o.s] = st[o.s2]]
      [] o.op = "script"  -> [st EXCEPT ![o.s] = FromScript(o.vals)]
      [] o.op = "destroy" -> [st EXCEPT ![o.s] = None]

\* ---- observation p of element t of a slot of type ty
NumRead(ty, t, q, can, must) ==      \* q = [is, get]; can: the type can hold the value
    /\ q.is \in {"yes", "no"}
    /\ (q.is = "yes" => ty \in NumTys /\ can)
    /\ (ty \in NumTys /\ must => q.is = "yes")
    /\ (ty \in NumTys /\ can => q.get.k = "v" /\ SameInt(q.get.t, AsInt(t)))
    /\ (ty \notin NumTys => q.get.k = "exc")
ElemOk(ty, t, p) ==
    /\ NumRead(ty, t, p.i, IntIn(t, IsI64), IntIn(t, IsI64))
    /\ NumRead(ty, t, p.i32, IntIn(t, IsI32), IntIn(t, IsI32))
    /\ NumRead(ty, t, p.i64, IntIn(t, IsI64), ty = "i64")
    /\ NumRead(ty, t, p.u32, IntIn(t, IsU32), IntIn(t, IsU32))
    /\ NumRead(ty, t, p.u64, IntIn(t, IsU64) /\ (ty = "real" => IntIn(t, IsI64)), IntIn(t, IsU64) /\ (ty = "real" => IntIn(t, IsI64)))
    /\ p.r.is = (IF ty \in NumTys THEN "yes" ELSE "no")
    /\ (ty \in NumTys => p.r.get.k = "v" /\ (Plain(t) => IsDecText(p.r.get.t) /\ Canon(p.r.get.t) = Canon(t)))
    /\ (ty \notin NumTys => p.r.get.k = "exc")
    /\ p.b.is = (IF ty = "bool" THEN "yes" ELSE "no")
    /\ (IF ty = "bool" THEN p.b.get.k = "v" /\ p.b.get.t = t ELSE p.b.get.k = "exc")
    /\ (IF ty = "str" THEN p.s.k = "v" /\ p.s.t = t ELSE p.s.k = "exc")
SlotOk(s, o) ==
    IF s.ty = "none" THEN ~o.live
    ELSE LET n == Len(s.vals) IN
    /\ o.live /\ o.n = n /\ Len(o.p) = n
    /\ \A k \in 1..n : ElemOk(s.ty, s.vals[k], o.p[k])
    /\ \A x \in Kinds \ {"r"} : o.w[x] = (IF n = 0 THEN "no" ELSE o.p[1][x].is)
    /\ o.w["r"] = (IF s.ty \in NumTys /\ n = 1 THEN "yes" ELSE "no")
    /\ o.vec = (IF s.ty \in NumTys THEN "yes" ELSE "no")
    /\ \A j \in 1..Len(o.vecn) : o.vecn[j].is = (IF s.ty \in NumTys /\ o.vecn[j].n = n THEN "yes" ELSE "no")
    /\ (IF s.ty \in NumTys THEN o.getv.k = "v" /\ Len(o.getv.t) = n /\ \A k \in 1..n : Plain(s.vals[k]) => IsDecText(o.getv.t[k]) /\ Canon(o.getv.t[k]) = Canon(s.vals[k])
                           ELSE o.getv.k = "exc")
    /\ (IF s.ty = "str" THEN o.text.k = "v" /\ o.text.t = s.vals ELSE o.text.k = "exc")
    /\ \A j \in 1..Len(o.beyond) : o.beyond[j] = "exc"
    /\ \A j \in 1..Len(o.beyondis) : o.beyondis[j] = "no"
=============================================================================
