------------------------------ MODULE Threads ------------------------------
(* Threads working at the same time, each with an object of its own (a clone of a common original, or one made
   separately). A thread makes calls one after the other; what a call answers depends on the calls this thread
   made before and on nothing another thread does. `alone[t]` are the answers of thread t when no other
   thread runs; s.k[t] is the number of calls thread t has completed. *)
EXTENDS Integers, Sequences, FiniteSets
Start(T) == [k |-> [t \in 1..T |-> 0]]
MayReturn(alone, s, t, v) == t \in 1..Len(alone) /\ s.k[t] < Len(alone[t]) /\ v = alone[t][s.k[t] + 1]
Return(s, t) == [s EXCEPT !.k[t] = @ + 1]
Done(alone, s) == \A t \in 1..Len(alone) : s.k[t] = Len(alone[t])
(* a log of completed calls in the order they completed: <<thread, answer>> *)
RECURSIVE LogFrom(_, _, _, _)
LogFrom(alone, s, log, i) ==
  IF i > Len(log) THEN Done(alone, s)
  ELSE IF MayReturn(alone, s, log[i][1], log[i][2]) THEN LogFrom(alone, Return(s, log[i][1]), log, i + 1) ELSE FALSE
LogOk(alone, log) == LogFrom(alone, Start(Len(alone)), log, 1)
(* the answers each thread got, when the order between threads was not observed: some interleaving of them must be
   allowed, and as threads do not constrain each other, any is if one is *)
EachOk(alone, rets) == Len(rets) = Len(alone) /\ \A t \in 1..Len(alone) :
   /\ Len(rets[t]) = Len(alone[t])
   /\ \A i \in 1..Len(rets[t]) : MayReturn(alone, [k |-> [u \in 1..Len(alone) |-> i - 1]], t, rets[t][i])
=============================================================================
