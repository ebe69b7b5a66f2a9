--------------------------- MODULE MCConfigValues ---------------------------
(* All texts over a small alphabet, grown character by character; every one  *)
(* is emitted and read by the real code.                                     *)
EXTENDS ConfigValues, TLC, Json
CONSTANTS MaxLen
Alphabet == {48, 49, 57, 43, 45, 46, 101}    \* 0 1 9 + - . e
VARIABLES txt
Init == txt = <<>>
Next == Len(txt) < MaxLen /\ \E c \in Alphabet : txt' = Append(txt, c)
Spec == Init /\ [][Next]_txt
Laws == /\ (IsI32(txt) => IsI64(txt)) /\ (IsU32(txt) => IsU64(txt))
        /\ (IsI32(txt) /\ ~Neg(txt) => IsU32(txt)) /\ (IsI64(txt) /\ ~Neg(txt) => IsU64(txt))
        /\ (IsIntText(txt) => IsDecText(txt) /\ Plain(txt))
        /\ (IsIntText(txt) => Canon(txt) = Canon(txt \o <<DotC, 48>>))
        /\ (IsIntText(txt) => Canon(txt \o <<48>>) = Canon(txt \o <<101, 49>>))
        /\ ~(txt \in Trues /\ txt \in Falses)
        /\ (IsIntText(txt) => SameInt(txt, txt) /\ ~SameInt(txt, txt \o <<49>>))
        /\ ~(Plain(txt) /\ TooBig(txt))
Emit == PrintT("EMIT " \o ToJson(txt))
=============================================================================
