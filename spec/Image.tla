------------------------------- MODULE Image -------------------------------
(* Images: a matrix of numbers v/D, drawn through a colour map with colours cs spread evenly over
   [a/D, b/D]. The picture shows the matrix transposed: element (r,c) is the pixel in column r, row c. *)
EXTENDS Integers, Sequences
Geri == <<<<0,0,0>>, <<38,38,128>>, <<76,38,191>>, <<153,51,128>>, <<255,64,38>>, <<230,128,0>>, <<230,191,26>>, <<230,230,128>>, <<255,255,255>>>>
Gray == <<<<0,0,0>>, <<255,255,255>>>>
NaN == 999999999
Colours(e) == IF e.map = "own" THEN e.colors ELSE IF e.map = "gray" THEN Gray ELSE Geri
Lo(e) == IF e.map = "own" THEN e.a ELSE 0
Hi(e) == IF e.map = "own" THEN e.b ELSE e.D
(* the colour of value v: the first colour at or below the range, the last at or above it, and in
   between the two neighbouring colours mixed in proportion (whole numbers, rounded down) *)
Colour(cs, a, b, v) ==
    LET n == Len(cs)
    IN IF v >= b THEN cs[n] ELSE IF v <= a \/ n = 1 THEN cs[1]
       ELSE LET w == b - a  pos == (v - a) * (n - 1)  l == pos \div w  f == pos % w
            IN [k \in 1..3 |-> ((w - f) * cs[l+1][k] + f * cs[l+2][k]) \div w]
Near(x, y, tol) == x - y <= tol /\ y - x <= tol
PixelOk(e, v, px) == \/ v = NaN
                     \/ LET w == Colour(Colours(e), Lo(e), Hi(e), v) IN \A k \in 1..3 : Near(w[k], px[k], IF e.exact THEN 0 ELSE 1)
Allowed(e) ==
    IF e.res.k = "none" THEN e.fmt = "png"          \* built without this format
    ELSE IF e.file # "ok" THEN e.res.k = "exc"
    ELSE /\ e.res.k = "ok" /\ e.res.w = e.rows /\ e.res.h = e.cols /\ Len(e.res.px) = e.rows * e.cols
         /\ \A r \in 1..e.rows : \A c \in 1..e.cols : PixelOk(e, e.vals[(r-1)*e.cols + c], e.res.px[(c-1)*e.rows + r])
=============================================================================
