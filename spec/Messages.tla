------------------------------ MODULE Messages ------------------------------
(* Exceptions. A message is made of parts: literal text and arguments; its text is the parts put
   together. Text is a sequence of character codes. A configuration error raised at a position
   carries "file:line:position: " in front and the position itself. *)
EXTENDS Integers, Sequences
RECURSIVE Cat(_)
Cat(ps) == IF ps = <<>> THEN <<>> ELSE Head(ps).x \o Cat(Tail(ps))
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Where(e) == e.file \o <<58>> \o Dec(e.line) \o <<58>> \o Dec(e.pos) \o <<58, 32>>
Text(e) == IF e.cls = "at" THEN Where(e) \o Cat(e.parts) ELSE Cat(e.parts)
Pos(e) == IF e.cls = "at" THEN <<e.line, e.pos>> ELSE IF e.cls = "conf" THEN <<0, 0>> ELSE <<>>
(* every way of looking at the exception, at copies of it and at the exception caught again *)
Allowed(e) == e.res.pos = Pos(e) /\ e.res.n = 18 /\ e.res.msgs = <<Text(e)>>
=============================================================================
