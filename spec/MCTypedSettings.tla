-------------------------- MODULE MCTypedSettings --------------------------
(* All histories of up to MaxOps calls over two slots and boundary values.   *)
EXTENDS TypedSettings, Json
CONSTANTS NS, MaxOps
Z == <<48>>  M1 == <<45,49>>  H == <<50,46,53>>
IntVals == {Z, M1, Max31, Min31, <<45>> \o Min31, Max32, <<52,50,57,52,57,54,55,50,57,54>>, Max63, Min63, <<45>> \o Min63, Max64}
ValsOf(ty) == CASE ty = "bool" -> {<<TrueT>>, <<FalseT, TrueT>>}
                [] ty = "i32" -> {<<v>> : v \in {x \in IntVals : IsI32(x)}} \cup {<<M1, Max31>>, <<>>}
                [] ty = "i64" -> {<<v>> : v \in {x \in IntVals : IsI64(x)}} \cup {<<Max31, Min31>>}
                [] ty = "u32" -> {<<v>> : v \in {x \in IntVals : IsU32(x)}}
                [] ty = "u64" -> {<<v>> : v \in {x \in IntVals : IsU64(x)}} \cup {<<Z, Max64>>}
                [] ty = "real" -> {<<Z>>, <<H>>, <<M1, H>>, <<Min31>>}
                [] ty = "str" -> {<<<<>>>>, <<Z, H, TrueT>>}
Scripts == {<<<<121,101,115>>>>, <<H>>, <<Max31>>, <<Min31>>, <<Max64>>, <<Z, M1>>, <<H, TrueT>>, <<<<78,111>>, <<110,111>>>>}
VARIABLES st, hist
Ops == {[op |-> "set", s |-> s, ty |-> ty, vals |-> v] : s \in 1..NS, ty \in NumTys \cup {"bool", "str"}, v \in UNION {ValsOf(y) : y \in NumTys \cup {"bool", "str"}}}
Valid(o) == o.op # "set" \/ o.vals \in ValsOf(o.ty)
Live == {s \in 1..NS : st[s].ty # "none"}
Next == /\ Len(hist) < MaxOps
        /\ \E o \in {x \in Ops : Valid(x)} \cup {[op |-> "over", s |-> a, s2 |-> b] : a \in Live, b \in Live}
                 \cup {[op |-> "copy", s |-> a, s2 |-> b] : a \in (1..NS) \ Live, b \in Live}
                 \cup {[op |-> "script", s |-> a, vals |-> v] : a \in Live, v \in Scripts}
                 \cup {[op |-> "destroy", s |-> a] : a \in Live} :
             st' = After(st, o) /\ hist' = Append(hist, o)
Init == st = [i \in 1..NS |-> None] /\ hist = <<>>
Spec == Init /\ [][Next]_<<st, hist>>
View == <<st, Len(hist)>>
WellTyped == \A s \in 1..NS : LET x == st[s] IN
    /\ (x.ty = "i32" => \A i \in 1..Len(x.vals) : IsI32(x.vals[i]))
    /\ (x.ty = "i64" => \A i \in 1..Len(x.vals) : IsI64(x.vals[i]))
    /\ (x.ty = "u32" => \A i \in 1..Len(x.vals) : IsU32(x.vals[i]))
    /\ (x.ty = "u64" => \A i \in 1..Len(x.vals) : IsU64(x.vals[i]))
    /\ (x.ty = "real" => \A i \in 1..Len(x.vals) : IsDecText(x.vals[i]))
    /\ (x.ty = "bool" => \A i \in 1..Len(x.vals) : x.vals[i] \in {TrueT, FalseT})
    /\ \A i \in 1..Len(x.vals) : (x.ty \in NumTys /\ Integral(x.vals[i])) => SameInt(AsInt(AsInt(x.vals[i])), AsInt(x.vals[i]))
Isolation == [][LET o == hist'[Len(hist')] IN \A i \in 1..NS : i # o.s => st'[i] = st[i]]_<<st, hist>>
Emit == hist = <<>> \/ PrintT("EMIT " \o ToJson(hist))
=============================================================================
