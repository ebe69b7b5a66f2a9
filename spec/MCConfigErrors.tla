--------------------------- MODULE MCConfigErrors ---------------------------
(* Exhaustive bounded check of the places of errors: every prefix of a      *)
(* script extended by one token, in layouts whose line structure is known.  *)
EXTENDS ConfigErrors, Json, Integers
CONSTANTS MaxLen, EmitAll
VARIABLES hist, p
MC == INSTANCE MCConfigLang
vars == <<hist, p>>
Init == hist = <<>> /\ p = ParseInit
Next == \E tk \in MC!Alphabet : /\ Len(hist) < MaxLen /\ ~p.bad
                                /\ hist' = Append(hist, tk)
                                /\ p' = ParseTok(p, tk, MC!Types)
Spec == Init /\ [][Next]_vars
Main == <<109>>
Pl(text) == Places(text, Main, MC!Types, <<>>, {})
V == Verdict(p)
\* a place exists exactly for texts that are not scripts
Agrees == (Pl(MC!Join(<<32>>)).at = {}) = (V = "ok")
\* one token per line: an offending token k is on line k, an open end after the last
PerLine == LET a == Pl(MC!Join(<<10>>)).at
           IN  IF p.bad THEN a = {At(Main, Len(hist), Len(hist))[1]}
               ELSE V = "malformed" => a = {At(Main, IF hist = <<>> THEN 1 ELSE Len(hist), Len(hist) + 1)[1]}
\* comments, blank lines, white space and quotation marks do not move anything else
Shifted == \A pre \in {<<10>>, <<35, 34, 61, 10, 10>>, <<32, 10, 9, 10, 10>>} :
             LET k == Len(SelectSeq(pre, LAMBDA c : c = 10))
                 a == Pl(MC!Join(<<10>>)).at  b == Pl(pre \o MC!Join(<<32, 10>>)).at
             IN  (V # "ok" /\ p.bad) => b = {[w EXCEPT !.lo = @ + k, !.hi = @ + k] : w \in a}
OneLine == V # "ok" => Pl(MC!Quoted).at = {At(Main, 1, 1)[1]}
\* an included text has its own lines and its own name
InFile == p.bad =>
    LET file == [n |-> <<102>>, c |-> MC!Join(<<10>>)]
    IN  Places(<<10, 10, 60, 102, 62, 10>>, Main, MC!Types, <<file>>, {}).at = {At(<<102>>, Len(hist), Len(hist))[1]}
Emit == ~EmitAll \/ PrintT("EMIT " \o ToJson([i \in 1..Len(hist) |->
            IF hist[i].k = "word" THEN hist[i].v[1] ELSE MC!TokText(hist[i])[1]]))
=============================================================================
