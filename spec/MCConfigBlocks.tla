--------------------------- MODULE MCConfigBlocks ---------------------------
(* Bounded exploration of ConfigBlocks: exhaustive over reachable forests   *)
(* (hist hidden by VIEW), and random long histories in simulation mode.     *)
EXTENDS ConfigBlocks, Json
CONSTANTS NS, MaxOps, MaxNodes, Emitting
Names == {"a", "b"}   Vals == {<<>>, <<"2", "x">>}   Tys == {1, 2}   BNames == {"p", "q"}
TNames == {"T", "U"}
VARIABLES st, hist
vars == <<st, hist>>
View == IF Emitting THEN <<st, hist>> ELSE <<st, Len(hist)>>

RECURSIVE Paths(_)
Paths(tree) == {<<>>} \cup UNION {{<<i>> \o q : q \in Paths(tree.subs[i])} : i \in 1..Len(tree.subs)}
RECURSIVE Size(_)
Size(tree) == 1 + Len(tree.sets) + FoldLeft(LAMBDA acc, c : acc + Size(c), 0, tree.subs)
Live == {s \in 1..NS : st[s].live}
Probe(s, pth) == [op |-> "probe", s |-> s, path |-> pth, names |-> <<"a", "b", "zz">>,
                  blocks |-> <<[ty |-> 1, name |-> "p"], [ty |-> 2, name |-> "p"], [ty |-> 1, name |-> "q"], [ty |-> 0, name |-> "<root>"]>>,
                  tys |-> <<0, 1, 2, 3>>, tnames |-> <<"/root", "T", "U", "V">>]
Ops == {[op |-> "new", s |-> s] : s \in (1..NS) \ Live}
   \cup UNION {UNION {
        {[op |-> "register", s |-> s, name |-> n] : n \in TNames},
        {[op |-> "seterr", s |-> s]},
        {[op |-> "destroy", s |-> s]},
        {[op |-> "copy", s |-> d, s2 |-> s] : d \in (1..NS) \ Live},
        {[op |-> "merge", s |-> s, s2 |-> d, allow |-> b] : d \in Live \ {s}, b \in BOOLEAN},
        UNION {UNION {
            {[op |-> "addset", s |-> s, path |-> pth, name |-> n, vals |-> v] : n \in Names, v \in Vals},
            {[op |-> "addsub", s |-> s, path |-> pth, ty |-> y, name |-> n, sec |-> x] : y \in Tys, n \in BNames, x \in {"", "sec"}},
            {[op |-> k, s |-> s, path |-> pth, name |-> n] : k \in {"get", "index"}, n \in Names},
            {[op |-> "append", s |-> s, path |-> pth, name |-> n, val |-> "9"] : n \in Names},
            {Probe(s, pth)},
            UNION {UNION {{[op |-> "graft", s |-> s, path |-> pth, s2 |-> d, path2 |-> q],
                           [op |-> "mergeblk", s |-> s, path |-> pth, s2 |-> d, path2 |-> q, allow |-> TRUE]}
                          \cup {[op |-> "addcopy", s |-> s, path |-> pth, s2 |-> d, path2 |-> q, k |-> k] : k \in 1..Len(At(st[d].tree, q).sets)}
                          : q \in Paths(st[d].tree)} : d \in Live \ {s}}
            } : pth \in Paths(st[s].tree)}
        } : s \in Live}
Init == st = [i \in 1..NS |-> Dead] /\ hist = <<>>
Next == \E o \in Ops : /\ Len(hist) < MaxOps
                       /\ \A i \in 1..NS : Size(After(st, o)[i].tree) <= MaxNodes
                       /\ st' = After(st, o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_vars
\* simulation: pick the kind of call first so that rare kinds are not drowned out
Kinds == {o.op : o \in Ops}
Fits(o) == \A i \in 1..NS : Size(After(st, o)[i].tree) <= MaxNodes
SimNext == /\ Len(hist) < MaxOps
           /\ \E k \in {RandomElement(Kinds)} : \E o \in {RandomElement({x \in Ops : x.op = k})} :
              \E p \in {IF Fits(o) THEN o ELSE [op |-> "destroy", s |-> o.s]} :
                 st' = After(st, p) /\ hist' = Append(hist, p)
SimSpec == Init /\ [][SimNext]_vars

\* ---- properties of the design
RECURSIVE Unique(_)
Unique(tree) == /\ Cardinality({tree.sets[i].n : i \in 1..Len(tree.sets)}) = Len(tree.sets)
                /\ Cardinality({<<tree.subs[i].ty, tree.subs[i].name>> : i \in 1..Len(tree.subs)}) = Len(tree.subs)
                /\ \A i \in 1..Len(tree.subs) : Unique(tree.subs[i])
NamesUnique == \A s \in 1..NS : Unique(st[s].tree)
TypesDistinct == \A s \in 1..NS : Cardinality(ToSet(st[s].types)) = Len(st[s].types)
MergeLaws == \A a, b \in Live : a # b =>
    LET A == st[a].tree  B == st[b].tree
        M == MergeInto(A, B, TRUE)  N == MergeInto(A, B, FALSE)
    IN  /\ UnknownIn(M, B) = <<>>                    \* everything of B is there afterwards
        /\ MergeInto(M, B, TRUE) = M                 \* idempotent
        /\ (UnknownIn(A, B) = <<>>) => (M = N)       \* nothing new: the flag does not matter
        /\ UnknownIn(N, A) = <<>> /\ UnknownIn(A, N) = <<>>  \* no growth without permission
        /\ UnknownIn(N, B) = UnknownIn(A, B)
        /\ Unique(M) /\ Unique(N)
CopyLaws == \A a \in Live : CopyOf(CopyOf(st[a].tree)) = CopyOf(st[a].tree) /\ UnknownIn(CopyOf(st[a].tree), st[a].tree) = <<>>
Isolation == \* a call on one slot never changes another
    [][\A i \in 1..NS : (i # hist'[Len(hist')].s) => st'[i] = st[i]]_vars
UseMonotone == \* a used setting stays used unless its slot is replaced or destroyed
    [][LET o == hist'[Len(hist')] IN o.op \notin {"destroy", "new", "copy"} =>
        \A i \in 1..NS : \A k \in 1..Len(st[i].tree.sets) : st[i].tree.sets[k].u => st'[i].tree.sets[k].u]_vars
OnlyLookupUses ==
    [][LET o == hist'[Len(hist')] IN o.op \notin {"get", "index", "append"} =>
        \A i \in 1..NS : \A k \in 1..Len(st'[i].tree.sets) : st'[i].tree.sets[k].u =>
             k \in 1..Len(st[i].tree.sets) /\ st[i].tree.sets[k].u]_vars
EmitEach == Len(hist) # MaxOps \/ PrintT("EMIT " \o ToJson(hist))   \* one history per distinct reachable forest
Emit == ~Emitting \/ Len(hist) # MaxOps \/ PrintT("EMIT " \o ToJson(hist))
=============================================================================
