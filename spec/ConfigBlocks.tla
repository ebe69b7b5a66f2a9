---------------------------- MODULE ConfigBlocks ----------------------------
(***************************************************************************)
(* Configurations as objects: a forest of block trees (one per slot) under *)
(* registration of block types, additions, lookups, merges, copies and     *)
(* destruction.  One action per public call.                               *)
(*                                                                         *)
(* A slot is [live, types, err, tree]; a tree is                           *)
(*   [ty, name, sec, sets, subs], a setting is [n, v, u]  (u = used).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Bags, TLC

Dead == [live |-> FALSE, types |-> <<>>, err |-> FALSE,
         tree |-> [ty |-> 0, name |-> "", sec |-> "", sets |-> <<>>, subs |-> <<>>]]
NewTree == [ty |-> 0, name |-> "<root>", sec |-> "<root>", sets |-> <<>>, subs |-> <<>>]
Fresh == [live |-> TRUE, types |-> <<"/root">>, err |-> FALSE, tree |-> NewTree]

\* ---- settings
FindS(sets, n) == LET h == {i \in 1..Len(sets) : sets[i].n = n} IN IF h = {} THEN 0 ELSE CHOOSE i \in h : TRUE
PutS(sets, n, v) == LET i == FindS(sets, n) IN IF i = 0 THEN Append(sets, [n |-> n, v |-> v, u |-> FALSE])
                                               ELSE [sets EXCEPT ![i].v = v]
Unused(sets) == LET f == SelectSeq(sets, LAMBDA s : ~s.u) IN [i \in 1..Len(f) |-> f[i].n]

\* ---- blocks
FindB(subs, ty, name) == LET h == {i \in 1..Len(subs) : subs[i].ty = ty /\ subs[i].name = name}
                         IN IF h = {} THEN 0 ELSE CHOOSE i \in h : TRUE
Blk(ty, name, sec) == [ty |-> ty, name |-> name, sec |-> IF sec = "" THEN name ELSE sec, sets |-> <<>>, subs |-> <<>>]

RECURSIVE At(_, _)
At(tree, path) == IF path = <<>> THEN tree ELSE At(tree.subs[Head(path)], Tail(path))
RECURSIVE Put(_, _, _)
Put(tree, path, new) == IF path = <<>> THEN new
                        ELSE [tree EXCEPT !.subs[Head(path)] = Put(@, Tail(path), new)]
RECURSIVE ValidPath(_, _)
ValidPath(tree, path) == path = <<>> \/ (Head(path) \in 1..Len(tree.subs) /\ ValidPath(tree.subs[Head(path)], Tail(path)))

\* a copy has never been used
RECURSIVE CopyOf(_)
CopyOf(tree) == [tree EXCEPT !.sets = [i \in 1..Len(@) |-> [@[i] EXCEPT !.u = FALSE]],
                             !.subs = [i \in 1..Len(@) |-> CopyOf(@[i])]]

\* ---- merging b into a
RECURSIVE MergeInto(_, _, _)
MergeInto(a, b, allow) ==
    LET sets == FoldLeft(LAMBDA acc, s : IF FindS(acc, s.n) # 0 \/ allow THEN PutS(acc, s.n, s.v) ELSE acc, a.sets, b.sets)
        subs == FoldLeft(LAMBDA acc, c :
                   LET i == FindB(acc, c.ty, c.name)
                   IN  IF i # 0 THEN [acc EXCEPT ![i] = MergeInto(@, c, allow)]
                       ELSE IF allow THEN Append(acc, CopyOf(c)) ELSE acc, a.subs, b.subs)
    IN [a EXCEPT !.sets = sets, !.subs = subs]
RECURSIVE UnknownIn(_, _)
UnknownIn(a, b) ==      \* names only b defines
    LET s == SelectSeq(b.sets, LAMBDA x : FindS(a.sets, x.n) = 0)
    IN  [i \in 1..Len(s) |-> s[i].n] \o
        FoldLeft(LAMBDA acc, c : LET i == FindB(a.subs, c.ty, c.name)
                                 IN acc \o (IF i = 0 THEN <<c.name>> ELSE UnknownIn(a.subs[i], c)), <<>>, b.subs)
BagOf(s) == [x \in ToSet(s) |-> Cardinality({i \in 1..Len(s) : s[i] = x})]

\* ---- statements of a script applied to a block (same meaning as ConfigLang!Tree)
RECURSIVE ApplyStmts(_, _)
ApplyStmts(b, ss) ==
    FoldLeft(LAMBDA acc, x :
        IF x.k = "set" THEN [acc EXCEPT !.sets = PutS(@, x.name, x.vals)]
        ELSE LET i == FindB(acc.subs, x.ty, x.name)
             IN IF i = 0 THEN [acc EXCEPT !.subs = Append(@, ApplyStmts(Blk(x.ty, x.name, x.sec), x.body))]
                ELSE [acc EXCEPT !.subs[i] = ApplyStmts(@, x.body)], b, ss)

\* ---- actions: After(st, o) is the forest after call o; Res(st, o, r) says which results are right
TreeUpd(st, o, new) == [st EXCEPT ![o.s].tree = Put(@, o.path, new)]
Here(st, o) == At(st[o.s].tree, o.path)

After(st, o) ==
    CASE o.op = "new"      -> [st EXCEPT ![o.s] = Fresh]
      [] o.op = "register" -> IF \E i \in 1..Len(st[o.s].types) : st[o.s].types[i] = o.name THEN st
                              ELSE [st EXCEPT ![o.s].types = Append(@, o.name)]
      [] o.op = "load"     -> [st EXCEPT ![o.s].tree = ApplyStmts(NewTree, o.stmts)]
      [] o.op = "seterr"   -> [st EXCEPT ![o.s].err = TRUE]
      [] o.op = "addset"   -> TreeUpd(st, o, [Here(st, o) EXCEPT !.sets = PutS(@, o.name, o.vals)])
      [] o.op = "addsub"   -> LET h == Here(st, o)
                              IN IF FindB(h.subs, o.ty, o.name) # 0 THEN st
                                 ELSE TreeUpd(st, o, [h EXCEPT !.subs = Append(@, Blk(o.ty, o.name, o.sec))])
      [] o.op = "graft"    -> LET h == Here(st, o)  b == At(st[o.s2].tree, o.path2)   \* add a copy of a block
                              IN IF FindB(h.subs, b.ty, b.name) # 0 THEN st
                                 ELSE TreeUpd(st, o, [h EXCEPT !.subs = Append(@, CopyOf(b))])
      [] o.op = "addcopy"  -> LET h == Here(st, o)  b == At(st[o.s2].tree, o.path2)   \* add a copy of a setting
                              IN TreeUpd(st, o, [h EXCEPT !.sets = PutS(@, b.sets[o.k].n, b.sets[o.k].v)])
      [] o.op \in {"get", "index"} ->
                              LET h == Here(st, o)  i == FindS(h.sets, o.name)
                              IN IF i = 0 THEN st ELSE TreeUpd(st, o, [h EXCEPT !.sets[i].u = TRUE])
      [] o.op = "append"   -> LET h == Here(st, o)   \* look a setting up and append to its values
                                  i == FindS(h.sets, o.name)
                              IN IF i = 0 THEN st ELSE TreeUpd(st, o, [h EXCEPT !.sets[i].u = TRUE, !.sets[i].v = Append(@, o.val)])
      [] o.op = "probe"    -> st
      [] o.op = "merge"    -> [st EXCEPT ![o.s].tree = MergeInto(@, st[o.s2].tree, o.allow)]
      [] o.op = "mergeblk" -> TreeUpd(st, o, MergeInto(Here(st, o), At(st[o.s2].tree, o.path2), o.allow))
      [] o.op = "copy"     -> [st EXCEPT ![o.s] = [st[o.s2] EXCEPT !.tree = CopyOf(@)]]
      [] o.op = "destroy"  -> [st EXCEPT ![o.s] = Dead]

Indices(seq, P(_)) == SelectSeq([i \in 1..Len(seq) |-> i], LAMBDA i : P(seq[i]))

Res(st, o, r) ==
    CASE o.op \in {"new", "load", "seterr", "copy", "destroy"} -> r.k = "ok"
      [] o.op = "register" -> IF \E i \in 1..Len(st[o.s].types) : st[o.s].types[i] = o.name
                              THEN r.k = "exc" ELSE r.k = "id" /\ r.id = Len(st[o.s].types)
      [] o.op \in {"addset", "addcopy"} -> r.k = "set" /\ LET h == Here(After(st, o), o) IN
                                 r.i \in 1..Len(h.sets) /\ h.sets[r.i].n = r.n
                                 /\ r.n = (IF o.op = "addset" THEN o.name ELSE At(st[o.s2].tree, o.path2).sets[o.k].n)
      [] o.op = "addsub"   -> r.k = "sub" /\ r.i = FindB(Here(After(st, o), o).subs, o.ty, o.name)
      [] o.op = "graft"    -> LET b == At(st[o.s2].tree, o.path2) IN r.k = "sub" /\ r.i = FindB(Here(After(st, o), o).subs, b.ty, b.name)
      [] o.op \in {"get", "append"} -> LET i == FindS(Here(st, o).sets, o.name)
                              IN IF i = 0 THEN r.k = "none" ELSE r.k = "set" /\ r.i = i
      [] o.op = "index"    -> LET i == FindS(Here(st, o).sets, o.name)
                              IN IF i = 0 THEN r.k = "exc" ELSE IF Here(st, o).sets[i].v = <<>> THEN r.k \in {"exc", "other"}
                                 ELSE r.k = "val" /\ r.v = Here(st, o).sets[i].v[1]
      [] o.op = "probe"    ->
            LET h == Here(st, o) IN
            /\ r.k = "probe"
            /\ \A j \in 1..Len(o.names) : r.hass[j] = (FindS(h.sets, o.names[j]) # 0)
            /\ \A j \in 1..Len(o.blocks) : LET b == o.blocks[j] IN
                  /\ r.hasb[j] = (FindB(h.subs, b.ty, b.name) # 0)
                  /\ r.getb[j] = FindB(h.subs, b.ty, b.name)
                  /\ r.self[j] = (h.ty = b.ty /\ h.name = b.name)
            /\ \A j \in 1..Len(o.tys) :
                  /\ r.oft[j] = Indices(h.subs, LAMBDA c : c.ty = o.tys[j])
                  /\ r.hast[j] = (\E i \in 1..Len(h.subs) : h.subs[i].ty = o.tys[j])
                  /\ r.selft[j] = (h.ty = o.tys[j])
            /\ r.any = (h.subs # <<>>)
            /\ \A j \in 1..Len(o.tnames) : LET tt == st[o.s].types  hit == {i \in 1..Len(tt) : tt[i] = o.tnames[j]}
                  IN r.ist[j] = (hit # {}) /\ (hit # {} => r.tid[j] = (CHOOSE i \in hit : TRUE) - 1)
      [] o.op \in {"merge", "mergeblk"} ->
            LET a == IF o.op = "merge" THEN st[o.s].tree ELSE Here(st, o)
                b == IF o.op = "merge" THEN st[o.s2].tree ELSE At(st[o.s2].tree, o.path2)
                un == UnknownIn(a, b)
            IN IF o.allow \/ un = <<>> THEN r.k = "none" ELSE r.k = "unknown" /\ BagOf(r.names) = BagOf(un)

\* ---- observation of one slot: the tree with unused lists and enclosing links
RECURSIVE Obs(_)
Obs(tree) == [ty |-> tree.ty, name |-> tree.name, sec |-> tree.sec, sets |-> tree.sets,
              unt |-> Unused(tree.sets), hasunt |-> (Unused(tree.sets) # <<>>), par |-> TRUE,
              subs |-> [i \in 1..Len(tree.subs) |-> Obs(tree.subs[i])]]
ObsSlot(s) == IF s.live THEN [live |-> TRUE, types |-> s.types, err |-> s.err, tree |-> Obs(s.tree)] ELSE [live |-> FALSE]
=============================================================================
