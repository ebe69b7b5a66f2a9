----------------------------- MODULE ConfigLang -----------------------------
(***************************************************************************)
(* The configuration-script language of softlib: which texts are scripts,  *)
(* and what tree of blocks and settings a script denotes.                  *)
(*                                                                         *)
(* Texts are sequences of character codes.  The reader is a transition     *)
(* system in two layers:                                                   *)
(*   LexStep   consumes one character (modes: code, string, comment,       *)
(*             inclusion) and produces words and punctuation;              *)
(*   ParseStep consumes one token and grows the block tree; its control    *)
(*             states are the positions inside a statement.                *)
(* "bad" is the absorbing error state of either layer.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

LOCAL QUOTE == 34
LOCAL HASH == 35
LOCAL LPAR == 40
LOCAL RPAR == 41
LOCAL COMMA == 44
LOCAL SEMI == 59
LOCAL LESS == 60
LOCAL EQUALS == 61
LOCAL GREATER == 62
LOCAL LBRACE == 123
LOCAL RBRACE == 125
WS == {32, 9, 10}
Punct == {LPAR, RPAR, SEMI, EQUALS, LBRACE, RBRACE}

Word(v) == [k |-> "word", v |-> v]
Incl(v) == [k |-> "include", v |-> v]
Pct(c)  == [k |-> CASE c = LPAR -> "(" [] c = RPAR -> ")" [] c = SEMI -> ";"
                    [] c = EQUALS -> "=" [] c = LBRACE -> "{" [] c = RBRACE -> "}",
            v |-> <<>>]

---------------------------------------------------------------------------
(* Layer 1: characters to tokens *)
LexInit == [m |-> "code", buf |-> <<>>, toks |-> <<>>, bad |-> FALSE]

Flush(s) == IF s.buf = <<>> THEN s ELSE [s EXCEPT !.toks = Append(@, Word(s.buf)), !.buf = <<>>]

LexStep(s, c) ==
    CASE s.m = "string" ->
            IF c = QUOTE
            THEN [s EXCEPT !.m = "code", !.toks = Append(@, Word(s.buf)), !.buf = <<>>]
            ELSE [s EXCEPT !.buf = Append(@, c)]
      [] s.m = "comment" ->
            IF c = 10 THEN [Flush(s) EXCEPT !.m = "code"] ELSE s
      [] s.m = "include" ->
            IF c = GREATER
            THEN [s EXCEPT !.m = "code", !.toks = Append(@, Incl(s.buf)), !.buf = <<>>]
            ELSE [s EXCEPT !.buf = Append(@, c)]
      [] s.m = "code" ->
            CASE c = QUOTE   -> [Flush(s) EXCEPT !.m = "string"]
              [] c = LESS    -> [Flush(s) EXCEPT !.m = "include"]
              [] c = HASH    -> [s EXCEPT !.m = "comment"]
              [] c = GREATER -> [s EXCEPT !.bad = TRUE]
              [] c \in Punct -> [Flush(s) EXCEPT !.toks = Append(@, Pct(c))]
              [] c = COMMA \/ c \in WS -> Flush(s)
              [] OTHER -> [s EXCEPT !.buf = Append(@, c)]

LexEnd(s) == IF s.m \in {"string", "include"} THEN [s EXCEPT !.bad = TRUE] ELSE Flush(s)

Lex(text) == LexEnd(FoldLeft(LexStep, LexInit, text))

---------------------------------------------------------------------------
(* Layer 2: tokens to the tree.  nodes[1] is the root; every other node    *)
(* names its parent; children and settings are in order of first mention.  *)
Root == [ty |-> 0, name |-> <<60, 114, 111, 111, 116, 62>>, sec |-> <<60, 114, 111, 111, 116, 62>>,
         parent |-> 0, sets |-> <<>>]

ParseInit == [at |-> "statement", cur |-> 1, nodes |-> <<Root>>, w |-> <<>>, vals |-> <<>>,
              bty |-> 0, sec |-> <<>>, bad |-> FALSE, unspec |-> FALSE]

Bad(p) == [p EXCEPT !.bad = TRUE]
Goto(p, s) == [p EXCEPT !.at = s]

\* types: sequence of registered block-type names; identifier = position - 1
IsType(types, v) == \E i \in 1..Len(types) : types[i] = v
TypeId(types, v) == (CHOOSE i \in 1..Len(types) : types[i] = v) - 1

\* assign values to a setting: overwrite in place, or append
PutSetting(sets, n, v) ==
    LET hit == {i \in 1..Len(sets) : sets[i].n = n}
    IN  IF hit = {} THEN Append(sets, [n |-> n, v |-> v])
        ELSE [sets EXCEPT ![CHOOSE i \in hit : TRUE].v = v]

\* open a block: the existing one with the same type and name, or a new one
OpenBlock(p) ==
    LET hit == {i \in 1..Len(p.nodes) : /\ p.nodes[i].parent = p.cur
                                        /\ p.nodes[i].ty = p.bty
                                        /\ p.nodes[i].name = p.w}
    IN  IF hit # {} THEN [p EXCEPT !.cur = CHOOSE i \in hit : TRUE, !.at = "statement"]
        ELSE [p EXCEPT !.nodes = Append(@, [ty |-> p.bty, name |-> p.w,
                                            sec |-> IF p.sec = <<>> THEN p.w ELSE p.sec,
                                            parent |-> p.cur, sets |-> <<>>]),
                       !.cur = Len(p.nodes) + 1, !.at = "statement"]

ParseTok(p, t, types) ==
    CASE p.at = "statement" ->
            CASE t.k = "word" ->
                    IF IsType(types, t.v)
                    THEN [Goto(p, "blockname") EXCEPT !.bty = TypeId(types, t.v), !.sec = <<>>]
                    ELSE [Goto(p, "equals") EXCEPT !.w = t.v]
              [] t.k = "}" -> IF p.cur = 1 THEN Bad(p)
                              ELSE [p EXCEPT !.cur = p.nodes[p.cur].parent]
              [] OTHER -> Bad(p)
      [] p.at = "equals" -> IF t.k = "=" THEN [Goto(p, "firstvalue") EXCEPT !.vals = <<>>] ELSE Bad(p)
      [] p.at = "firstvalue" -> IF t.k = "word" THEN [Goto(p, "values") EXCEPT !.vals = <<t.v>>] ELSE Bad(p)
      [] p.at = "values" ->
            CASE t.k = "word" -> [p EXCEPT !.vals = Append(@, t.v)]
              [] t.k = ";" -> [Goto(p, "statement") EXCEPT
                                 !.nodes[p.cur].sets = PutSetting(@, p.w, p.vals)]
              [] OTHER -> Bad(p)
      [] p.at = "blockname" -> IF t.k = "word" THEN [Goto(p, "open") EXCEPT !.w = t.v] ELSE Bad(p)
      [] p.at = "open" ->
            CASE t.k = "(" -> Goto(p, "sectype")
              [] t.k = "{" -> OpenBlock(p)
              [] OTHER -> Bad(p)
      [] p.at = "sectype" -> IF t.k = "word" /\ ~IsType(types, t.v)
                             THEN [Goto(p, "sectypeend") EXCEPT !.sec = t.v] ELSE Bad(p)
      [] p.at = "sectypeend" -> IF t.k = ")" THEN Goto(p, "openonly") ELSE Bad(p)
      [] p.at = "openonly" -> IF t.k = "{" THEN OpenBlock(p) ELSE Bad(p)

\* files: sequence of [n |-> name, c |-> text].  Inclusion is defined where a statement
\* may stand; the reader does not say what an inclusion inside a statement means.
RECURSIVE ParseSeq(_, _, _, _, _)
ParseSeq(p0, toks, types, files, open) ==
    FoldLeft(LAMBDA p, t :
        IF p.bad \/ p.unspec THEN p
        ELSE IF t.k # "include" THEN ParseTok(p, t, types)
        ELSE LET hit == {i \in 1..Len(files) : files[i].n = t.v}
             IN  IF hit = {} \/ t.v \in open THEN Bad(p)
                 ELSE LET lx == Lex(files[CHOOSE i \in hit : TRUE].c)
                          q == IF lx.bad THEN Bad(p)
                               ELSE ParseSeq(p, lx.toks, types, files, open \cup {t.v})
                      IN  IF q.bad \/ q.unspec THEN q
                          ELSE IF p.at # "statement" \/ q.at # "statement"
                               THEN [q EXCEPT !.unspec = TRUE] ELSE q,
        p0, toks)

\* A text that is not a script has verdict "malformed".
Verdict(p) == IF p.unspec THEN "unspecified"
              ELSE IF p.bad \/ p.at # "statement" \/ p.cur # 1 THEN "malformed" ELSE "ok"

Read(text, types, files, self) ==
    LET lx == Lex(text)
    IN  IF lx.bad THEN Bad(ParseInit)
        ELSE ParseSeq(ParseInit, lx.toks, types, files, self)

\* nested form, as observed through the API
RECURSIVE Nest(_, _)
Nest(nodes, i) ==
    LET n == nodes[i]
        kids == SelectSeq([j \in 1..Len(nodes) |-> j], LAMBDA j : nodes[j].parent = i)
    IN  [ty |-> n.ty, name |-> n.name, sec |-> n.sec, sets |-> n.sets,
         subs |-> [j \in 1..Len(kids) |-> Nest(nodes, kids[j])]]
Tree(p) == Nest(p.nodes, 1)
=============================================================================
