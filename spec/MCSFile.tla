------------------------------ MODULE MCSFile ------------------------------
(* Bounded exploration of SFile: sessions on a few files in each format.    *)
EXTENDS SFile, Json
CONSTANTS MaxOps, Fmts, Emitting
Num(es) == [k |-> "num", t |-> "f64", d |-> <<Len(es)>>, e |-> es, fits |-> <<"f64", "i32", "i64", "u32", "u64">>]
Txt == [k |-> "text", t |-> "text", d |-> <<>>, e |-> <<104, 105>>, fits |-> <<>>]
Values == {Num(<<"1", "2">>), Num(<<"7">>), Txt}
HowOf(x) == IF x.k = "text" THEN "string" ELSE "list"
Names == {<<"a">>, <<"g", "a">>}
VARIABLES fmt, S, hist
vars == <<fmt, S, hist>>
View == IF Emitting THEN vars ELSE <<fmt, S, Len(hist)>>
Others(h, f) == {x \in (1..NH) \ {h} : S.h[x].st = "open" /\ S.h[x].f = f}
LegalOpen(h, f, m) == \A x \in Others(h, f) : m = "r" /\ S.h[x].mode = "r"
Opens == {[op |-> "open", h |-> h, f |-> f, fmt |-> fmt, mode |-> m, via |-> IF S.h[h].st = "none" THEN "create" ELSE "reopen", dir |-> d] :
             h \in 1..NH, f \in 1..NF, m \in {"r", "w", "u"}, d \in {"ok", "none"}}
Live == {h \in 1..NH : S.h[h].st # "none"}
Op(h) == {x \in {h} : S.h[x].st = "open"}
Ops == {o \in Opens : LegalOpen(o.h, o.f, o.mode)}
    \cup {[op |-> k, h |-> h] : k \in {"close", "del"}, h \in Live}
    \cup UNION {{[op |-> "write", h |-> h, name |-> n, how |-> HowOf(x), val |-> x] : n \in Names, x \in Values}
             \cup {[op |-> "struct", h |-> h, name |-> <<"g">>]}
             \cup {[op |-> "attr", h |-> h, ds |-> <<"a">>, an |-> "b", val |-> x] : x \in {Num(<<"7">>), Txt}}
             \cup {[op |-> "has", h |-> h, name |-> n] : n \in Names}
             \cup {[op |-> "get", h |-> h, name |-> n, how |-> w] : n \in Names, w \in {"list", "scalar", "string"}}
             : h \in {x \in Live : S.h[x].st = "open"}}
Acc(o) == CASE o.op = "open" -> OpenOK(S, o)
            [] o.op \in {"write", "attr", "struct"} -> Accepted(S, o)
            [] OTHER -> TRUE
Init == fmt \in Fmts /\ S = InitS /\ hist = <<>>
Do(o) == S' = After(S, o) /\ hist' = Append(hist, [o |-> o, acc |-> Acc(o)]) /\ fmt' = fmt
Next == Len(hist) < MaxOps /\ \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars
Kinds == {o.op : o \in Ops}
SimNext == Len(hist) < MaxOps /\ \E k \in {RandomElement(Kinds)} : \E o \in {RandomElement({x \in Ops : x.op = k})} : Do(o)
SimSpec == Init /\ [][SimNext]_vars

\* ---- what the history says, without the state: the file of the session handle h is in before step i (0: none)
IsOpenEv(i, h) == hist[i].o.op \in {"open", "close", "del"} /\ hist[i].o.h = h
LastEv(i, h) == LET E == {j \in 1..(i - 1) : IsOpenEv(j, h)} IN IF E = {} THEN 0 ELSE CHOOSE m \in E : \A j \in E : j <= m
SessF(i, h) == LET m == LastEv(i, h) IN IF m = 0 THEN 0 ELSE IF hist[m].o.op = "open" /\ hist[m].acc THEN hist[m].o.f ELSE 0
LastW(f) == LET E == {j \in 1..Len(hist) : hist[j].o.op = "open" /\ hist[j].acc /\ hist[j].o.f = f /\ hist[j].o.mode = "w"}
            IN IF E = {} THEN 0 ELSE CHOOSE m \in E : \A j \in E : j <= m
Key(o) == IF o.op = "write" THEN o.name ELSE AttrVar(o.ds, o.an)
Puts(f) == {i \in (LastW(f) + 1)..Len(hist) : hist[i].acc /\ SessF(i, hist[i].o.h) = f
              /\ (hist[i].o.op = "write" \/ (hist[i].o.op = "attr" /\ fmt # "h5"))}
HistoryDecides == \A f \in 1..NF :
    IF LastW(f) = 0 THEN S.f[f].st = "none"
    ELSE /\ S.f[f].st = "data" /\ DOMAIN S.f[f].v = {Key(hist[i].o) : i \in Puts(f)}
         /\ \A i \in Puts(f) : (\A j \in Puts(f) : j > i => Key(hist[j].o) # Key(hist[i].o)) => S.f[f].v[Key(hist[i].o)] = hist[i].o.val
\* in the structured formats nothing is ever replaced
NoReplacement == fmt = "sdt" \/ \A f \in 1..NF : LastW(f) = 0 \/ \A i, j \in Puts(f) : i # j => Key(hist[i].o) # Key(hist[j].o)
GroupsFirst == fmt = "sdt" \/ \A f \in 1..NF : S.f[f].st # "data" \/ \A p \in DOMAIN S.f[f].v : GroupsOK(S.f[f], p)
Cur == hist'[Len(hist')].o
ReadsArePure == [][Cur.op \in {"has", "get", "close"} => S'.f = S.f]_vars
Isolation == [][\A f \in 1..NF : (Cur.op = "open" /\ Cur.f # f) \/ (Cur.op \notin {"open"} /\ (S.h[Cur.h].st # "open" \/ S.h[Cur.h].f # f)) => S'.f[f] = S.f[f]]_vars
UpdateKeeps == [][Cur.op = "open" /\ Cur.mode # "w" => \A f \in 1..NF : S.f[f].st = "data" => S'.f[f].v = S.f[f].v /\ S'.f[f].a = S.f[f].a]_vars
HandleShowsItsFile == \A h \in 1..NH : S.h[h].st = "open" /\ S.h[h].mode = "r" => Vars(S, [h |-> h]) = S.f[S.h[h].f].v
CloseTwice == [][Cur.op = "close" /\ S.h[Cur.h].st = "closed" => S' = S]_vars
Emit == Len(hist) # MaxOps \/ PrintT("EMIT " \o ToJson([fmt |-> fmt, ops |-> [i \in 1..Len(hist) |-> hist[i].o]]))
============================================================================
