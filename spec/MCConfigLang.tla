---------------------------- MODULE MCConfigLang ----------------------------
(* Exhaustive bounded check of the language definition: every token string  *)
(* that is a prefix of a script, extended by any token, up to MaxLen.       *)
EXTENDS ConfigLang, Json, Integers
CONSTANTS MaxLen, EmitAll
A == <<97>>      B == <<98, 98>>      T == <<64, 84>>
Types == <<<<47, 114>>, T>>
Alphabet == {Word(A), Word(B), Word(T), Pct(61), Pct(59), Pct(40), Pct(41), Pct(123), Pct(125)}
VARIABLES hist, p
vars == <<hist, p>>
Init == hist = <<>> /\ p = ParseInit
Next == \E tk \in Alphabet : /\ Len(hist) < MaxLen /\ ~p.bad
                             /\ hist' = Append(hist, tk)
                             /\ p' = ParseTok(p, tk, Types)
Spec == Init /\ [][Next]_vars

\* --- layouts of a token string
TokText(tk) == IF tk.k = "word" THEN tk.v
               ELSE <<CASE tk.k = "(" -> 40 [] tk.k = ")" -> 41 [] tk.k = ";" -> 59
                        [] tk.k = "=" -> 61 [] tk.k = "{" -> 123 [] tk.k = "}" -> 125>>
Join(sep) == FoldLeft(LAMBDA acc, tk : acc \o TokText(tk) \o sep, <<>>, hist)
Quoted == FoldLeft(LAMBDA acc, tk : acc \o (IF tk.k = "word" THEN <<34>> \o tk.v \o <<34>> ELSE TokText(tk)), <<>>, hist)
\* --- properties of the language
SameTokens(text) == LET x == Lex(text) IN ~x.bad /\ x.toks = hist
LayoutIrrelevant == /\ SameTokens(Join(<<32>>)) /\ SameTokens(Join(<<10, 9>>)) /\ SameTokens(Join(<<44>>))
                    /\ SameTokens(Join(<<35, 61, 34, 59, 10>>)) /\ SameTokens(Quoted)
Truncated == \* an open string or inclusion at the end is never accepted
    Lex(Join(<<32>>) \o <<34>>).bad /\ Lex(Join(<<32>>) \o <<60>>).bad
Compositional == p = ParseSeq(ParseInit, hist, Types, <<>>, {})
Spliced == \* an inclusion between statements is the included text
    \A k \in 0..Len(hist) :
        LET fst == SubSeq(hist, 1, k)  snd == SubSeq(hist, k + 1, Len(hist))
            file == [n |-> <<102>>, c |-> FoldLeft(LAMBDA acc, tk : acc \o TokText(tk) \o <<32>>, <<>>, snd)]
            q == ParseSeq(ParseInit, Append(fst, Incl(<<102>>)), Types, <<file>>, {})
        IN  Verdict(q) # "unspecified" => Verdict(q) = Verdict(p) /\ (Verdict(p) = "ok" => Tree(q) = Tree(p))
WellFormedTree ==
    \A i \in 1..Len(p.nodes) :
        /\ (i = 1 /\ p.nodes[i].parent = 0) \/ (i > 1 /\ p.nodes[i].parent \in 1..(i - 1))
        /\ \A j \in 1..(i - 1) : ~(p.nodes[i].parent = p.nodes[j].parent /\ p.nodes[i].ty = p.nodes[j].ty
                                   /\ p.nodes[i].name = p.nodes[j].name)
        /\ Cardinality({p.nodes[i].sets[k].n : k \in 1..Len(p.nodes[i].sets)}) = Len(p.nodes[i].sets)
Balanced == Verdict(p) = "ok" =>
    /\ Len(SelectSeq(hist, LAMBDA x : x.k = "{")) = Len(SelectSeq(hist, LAMBDA x : x.k = "}"))
    /\ Len(SelectSeq(hist, LAMBDA x : x.k = "=")) = Len(SelectSeq(hist, LAMBDA x : x.k = ";"))
SettingPersists == \* an accepted assignment is never lost later
    [][\A i \in 1..Len(p.nodes) : \A k \in 1..Len(p.nodes[i].sets) :
         p'.nodes[i].name = p.nodes[i].name /\ p'.nodes[i].sets[k].n = p.nodes[i].sets[k].n]_vars
Emit == ~EmitAll \/ PrintT("EMIT " \o ToJson([i \in 1..Len(hist) |->
            IF hist[i].k = "word" THEN hist[i].v[1] ELSE TokText(hist[i])[1]]))
=============================================================================
