---------------------------- MODULE ConfigErrors ----------------------------
(***************************************************************************)
(* Where a text stops being a script.  The reader of ConfigLang, with a    *)
(* line counter: every token knows the lines it spans, and the first       *)
(* error of a malformed text has a place [f, lo, hi]: a source and the     *)
(* lines the offending token, quotation, inclusion or end of text spans.   *)
(***************************************************************************)
EXTENDS ConfigLang

PLexInit == [s |-> LexInit, line |-> 1, start |-> 1, lo |-> <<>>, hi |-> <<>>, err |-> <<>>]

PLexStep(x, c) ==
    IF x.err # <<>> THEN x
    ELSE LET s2 == LexStep(x.s, c)
             n == Len(s2.toks) - Len(x.s.toks)
             isP == x.s.m = "code" /\ c \in Punct
             opens == \/ (x.s.m = "code" /\ s2.m \in {"string", "include"})
                      \/ (s2.m = "code" /\ x.s.buf = <<>> /\ s2.buf # <<>>)
             new == CASE n = 0 -> <<>>
                      [] n = 1 -> <<IF isP THEN x.line ELSE x.start>>
                      [] n = 2 -> <<x.start, x.line>>
             \* only quotations and inclusions span lines; both are closed by this character
             end == [k \in 1..n |-> IF x.s.m \in {"string", "include"} THEN x.line ELSE new[k]]
         IN  IF s2.bad THEN [x EXCEPT !.err = <<[lo |-> x.line, hi |-> x.line]>>]
             ELSE [x EXCEPT !.s = s2, !.lo = @ \o new, !.hi = @ \o end,
                            !.line = IF c = 10 THEN @ + 1 ELSE @,
                            !.start = IF opens THEN x.line ELSE @]

PLexEnd(x) ==
    IF x.err # <<>> THEN x
    ELSE LET s2 == LexEnd(x.s)
         IN  IF s2.bad THEN [x EXCEPT !.err = <<[lo |-> x.start, hi |-> x.line]>>]
             ELSE IF Len(s2.toks) > Len(x.s.toks)
                  THEN [x EXCEPT !.s = s2, !.lo = Append(@, x.start), !.hi = Append(@, x.start)]
                  ELSE [x EXCEPT !.s = s2]

PLex(text) == PLexEnd(FoldLeft(PLexStep, PLexInit, text))

\* y.lex, y.syn: at most one place each; y.loose: the place is not specified
At(src, lo, hi) == <<[f |-> src, lo |-> lo, hi |-> hi]>>
OddName(v) == \E i \in 1..Len(v) : v[i] \in WS \cup {35}

RECURSIVE Place(_, _, _, _, _, _)
Place(y0, text, src, types, files, open) ==
    LET x == PLex(text)
        step(y, i) ==
            LET t == x.s.toks[i] IN
            IF y.loose \/ y.lex # <<>> THEN y
            ELSE IF t.k # "include"
            THEN IF y.syn # <<>> THEN y
                 ELSE LET q == ParseTok(y.p, t, types)
                      IN  IF q.bad THEN [y EXCEPT !.syn = At(src, x.lo[i], x.hi[i])] ELSE [y EXCEPT !.p = q]
            ELSE LET hit == {k \in 1..Len(files) : files[k].n = t.v}
                 IN  IF OddName(t.v) THEN [y EXCEPT !.loose = TRUE]
                     ELSE IF hit = {} \/ t.v \in open THEN [y EXCEPT !.lex = At(src, x.lo[i], x.hi[i])]
                     ELSE LET q == Place(y, files[CHOOSE k \in hit : TRUE].c, t.v, types, files, open \cup {t.v})
                          IN  IF q.syn = <<>> /\ (y.p.at # "statement" \/ q.p.at # "statement")
                              THEN [q EXCEPT !.loose = TRUE]
                              ELSE IF y.syn = <<>> /\ y.p.at # "statement" THEN [q EXCEPT !.loose = TRUE] ELSE q
        y == FoldLeft(step, y0, [i \in 1..Len(x.s.toks) |-> i])
    IN  IF ~y.loose /\ y.lex = <<>> /\ x.err # <<>>
        THEN [y EXCEPT !.lex = At(src, x.err[1].lo, x.err[1].hi)] ELSE y

PlaceInit == [p |-> ParseInit, lex |-> <<>>, syn |-> <<>>, loose |-> FALSE]

\* all the places the first error may be reported at; {} for a script
Places(text, src, types, files, self) ==
    LET y == Place(PlaceInit, text, src, types, files, self)
        x == PLex(text)
        last == IF x.hi = <<>> THEN 1 ELSE x.hi[Len(x.hi)]
        open == y.syn = <<>> /\ y.lex = <<>> /\ (y.p.at # "statement" \/ y.p.cur # 1)
    IN  [loose |-> y.loose,
         at |-> {(y.lex \o y.syn)[k] : k \in 1..Len(y.lex \o y.syn)}
                \cup (IF open THEN {At(src, last, x.line)[1]} ELSE {})]

Names(r, pl) == \/ pl.loose
                \/ \E w \in pl.at : r.file = w.f /\ r.line \in w.lo..w.hi
=============================================================================
