----------------------------- MODULE MCThreads -----------------------------
(* All interleavings of the steps of calls. A call is a question (put the argument in the work space, work
   there, take the answer from there), a change of a setting of the object, or a replacement of the object by a
   clone of itself. Place says whose work space and settings a thread uses: its own object's (the design), or,
   for the designs to be refuted, one shared by all objects: "space" (static or shared scratch variables),
   "settings" (a clone referring to its original). *)
EXTENDS Threads, Json, TLC
CONSTANTS T, N, Design, Questions
VARIABLES prog, pc, w, x, log, s, bad
vars == <<prog, pc, w, x, log, s, bad>>
Calls == [op : {"ask"}, q : Questions] \cup {[op |-> "set", q |-> 0], [op |-> "clone", q |-> 0]}
W(t) == IF Design = "space" THEN 1 ELSE t
X(t) == IF Design = "settings" THEN 1 ELSE t
(* what a program answers when it runs alone, from setting v *)
RECURSIVE Answers(_, _)
Answers(p, v) == IF p = <<>> THEN <<>>
  ELSE LET c == Head(p) IN IF c.op = "ask" THEN <<10 * v + c.q>> \o Answers(Tail(p), v)
       ELSE IF c.op = "set" THEN <<0>> \o Answers(Tail(p), 1 - v) ELSE <<0>> \o Answers(Tail(p), v)
Alone == [t \in 1..T |-> Answers(prog[t], 0)]
Init == /\ prog \in [1..T -> [1..N -> Calls]] /\ pc = [t \in 1..T |-> "out"] /\ w = [t \in 1..T |-> 0] /\ x = [t \in 1..T |-> 0]
        /\ log = <<>> /\ s = Start(T) /\ bad = FALSE
Cur(t) == prog[t][s.k[t] + 1]
Finish(t, v) == /\ log' = Append(log, t) /\ bad' = (bad \/ ~MayReturn(Alone, s, t, v)) /\ s' = Return(s, t) /\ pc' = [pc EXCEPT ![t] = "out"]
Begin(t) == /\ pc[t] = "out" /\ s.k[t] < N
            /\ IF Cur(t).op = "ask" THEN w' = [w EXCEPT ![W(t)] = Cur(t).q] /\ pc' = [pc EXCEPT ![t] = "work"] /\ UNCHANGED <<x, log, s, bad>>
               ELSE /\ x' = (IF Cur(t).op = "set" THEN [x EXCEPT ![X(t)] = 1 - @] ELSE x) /\ Finish(t, 0) /\ UNCHANGED w
            /\ UNCHANGED prog
Work(t) == /\ pc[t] = "work" /\ w' = [w EXCEPT ![W(t)] = 10 * x[X(t)] + @] /\ pc' = [pc EXCEPT ![t] = "take"] /\ UNCHANGED <<prog, x, log, s, bad>>
Take(t) == /\ pc[t] = "take" /\ Finish(t, w[W(t)]) /\ UNCHANGED <<prog, w, x>>
Next == \E t \in 1..T : Begin(t) \/ Work(t) \/ Take(t)
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
Isolated == ~bad
Finished == \A t \in 1..T : s.k[t] = N
Emitted == (Finished /\ \A t \in 1..T : \A i \in 1..N : prog[t][i].op = "clone") => PrintT("EMIT " \o ToJson([order |-> log]))
=============================================================================
