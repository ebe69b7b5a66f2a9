----------------------------- MODULE MCProgress -----------------------------
(* All interleavings of a few threads reporting all items in any distribution; the steps of a report
   are those of the implementation: look at the next mark and take it, print it, restart the lap
   timer. Locked: all of it happens in one critical section (the intended design). With Locked =
   FALSE only taking the mark is protected, and the number to print is read before it. *)
EXTENDS Progress, Json, TLC, SequencesExt
CONSTANTS Threads, MaxN, MaxNp, Locked
VARIABLES n, np, left, pc, item, idx, next, nextindex, out, s, done, owner
vars == <<n, np, left, pc, item, idx, next, nextindex, out, s, done, owner>>
D == n \div np
Mod == (n % np) * (D + 1)
Step(x) == IF x < Mod THEN x + D + 1 ELSE x + D
Init == /\ n \in 1..MaxN /\ np \in 1..MaxNp /\ left = 1..n /\ pc = [t \in Threads |-> "idle"] /\ item = [t \in Threads |-> 0]
        /\ idx = [t \in Threads |-> 0] /\ next = Step(0) /\ nextindex = 1 /\ out = <<>> /\ s = Fresh /\ done = <<>> /\ owner = 0
Begin(t) == /\ pc[t] = "idle" /\ left # {} /\ \E i \in left : item' = [item EXCEPT ![t] = i] /\ left' = left \ {i} /\ done' = Append(done, i) /\ s' = Start(s, t, i)
            /\ pc' = [pc EXCEPT ![t] = "read"] /\ UNCHANGED <<n, np, idx, next, nextindex, out, owner>>
Read(t) == /\ pc[t] = "read" /\ pc' = [pc EXCEPT ![t] = "crit"]
           /\ IF Locked THEN owner = 0 /\ owner' = t /\ UNCHANGED idx ELSE idx' = [idx EXCEPT ![t] = nextindex] /\ UNCHANGED owner
           /\ UNCHANGED <<n, np, left, item, next, nextindex, out, s, done>>
Crit(t) == /\ pc[t] = "crit"
           /\ IF item[t] >= next
              THEN /\ next' = Step(next) /\ nextindex' = nextindex + 1 /\ pc' = [pc EXCEPT ![t] = "print"]
                   /\ IF Locked THEN idx' = [idx EXCEPT ![t] = nextindex] ELSE UNCHANGED idx
              ELSE pc' = [pc EXCEPT ![t] = "leave"] /\ UNCHANGED <<next, nextindex, idx>>
           /\ UNCHANGED <<n, np, left, item, out, s, done, owner>>
Emit(t) == /\ pc[t] = "print" /\ out' = Append(out, [t |-> t, k |-> idx[t], i |-> item[t]])
           /\ s' = IF CanPrint(n, np, s, t) /\ idx[t] = s.k + 1 THEN Print(s, t) ELSE [s EXCEPT !.k = -100]
           /\ pc' = [pc EXCEPT ![t] = "leave"] /\ UNCHANGED <<n, np, left, item, idx, next, nextindex, done, owner>>
Leave(t) == /\ pc[t] = "leave" /\ owner' = (IF owner = t THEN 0 ELSE owner) /\ pc' = [pc EXCEPT ![t] = "idle"]
            /\ s' = IF CanEnd(n, np, s, t) THEN End(s, t) ELSE [s EXCEPT !.k = -200]
            /\ UNCHANGED <<n, np, left, item, idx, next, nextindex, out, done>>
Next == \E t \in Threads : Begin(t) \/ Read(t) \/ Crit(t) \/ Emit(t) \/ Leave(t)
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
Refines == s.k >= 0                                                  \* every step is one the specification allows
InOrder == \A a \in 1..Len(out) : out[a].k = a                        \* once each, increasing
NotEarly == \A a \in 1..Len(out) : out[a].i >= Thr(n, np, out[a].k)   \* a report had reached the mark
AtMost == Len(out) <= np
Sorted == \A a \in 1..Len(done)-1 : done[a] < done[a+1]
Quiet == left = {} /\ \A t \in Threads : pc[t] = "idle"
(* reported in order by one thread, all marks are printed at the end *)
Complete == (Quiet /\ Sorted /\ Cardinality(Threads) = 1) => Len(out) = Min2(n, np)
GroupsOk == \A k \in 1..np : Thr(n, np, k) - Thr(n, np, k-1) \in {n \div np, n \div np + 1} /\ Thr(n, np, np) = n
Emitted == (Quiet /\ Cardinality(Threads) = 1) => PrintT("EMIT " \o ToJson([n |-> n, np |-> np, order |-> done]))
=============================================================================
