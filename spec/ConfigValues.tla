---------------------------- MODULE ConfigValues ----------------------------
(* What the text of one setting value denotes: truth values, integers with   *)
(* their ranges, decimal numbers.  A text is a sequence of character codes.  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

IsDig(c) == c \in 48..57
MinusC == 45   PlusC == 43   DotC == 46
AllDig(s) == \A i \in 1..Len(s) : IsDig(s[i])
RECURSIVE StripLead(_)
StripLead(d) == IF d # <<>> /\ d[1] = 48 THEN StripLead(Tail(d)) ELSE d
RECURSIVE StripTrail(_)
StripTrail(d) == IF d # <<>> /\ d[Len(d)] = 48 THEN StripTrail(Front(d)) ELSE d

\* comparison of digit sequences without leading zeros
RECURSIVE LexLeq(_, _)
LexLeq(a, b) == a = <<>> \/ a[1] < b[1] \/ (a[1] = b[1] /\ LexLeq(Tail(a), Tail(b)))
Leq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLeq(a, b))

Signed(t) == t # <<>> /\ t[1] \in {MinusC, PlusC}
Body(t) == IF Signed(t) THEN Tail(t) ELSE t
Neg(t) == t # <<>> /\ t[1] = MinusC

\* ---- integers
IsIntText(t) == Body(t) # <<>> /\ AllDig(Body(t))
Mag(t) == StripLead(Body(t))
D(str) == str   \* digit sequences are written out below
Max31  == <<50,49,52,55,52,56,51,54,52,55>>              \* 2147483647
Min31  == <<50,49,52,55,52,56,51,54,52,56>>              \* 2147483648
Max32  == <<52,50,57,52,57,54,55,50,57,53>>              \* 4294967295
Max63  == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>
Min63  == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>
Max64  == <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>
IsI32(t) == IsIntText(t) /\ Leq(Mag(t), IF Neg(t) THEN Min31 ELSE Max31)
IsI64(t) == IsIntText(t) /\ Leq(Mag(t), IF Neg(t) THEN Min63 ELSE Max63)
IsU32(t) == IsIntText(t) /\ ~Neg(t) /\ Leq(Mag(t), Max32)
IsU64(t) == IsIntText(t) /\ ~Neg(t) /\ Leq(Mag(t), Max64)
MinusZero(t) == IsIntText(t) /\ Neg(t) /\ Mag(t) = <<>>
SameInt(a, b) == IsIntText(a) /\ IsIntText(b) /\ Mag(a) = Mag(b) /\ (Mag(a) = <<>> \/ Neg(a) = Neg(b))

\* ---- decimal numbers
EPos(s) == LET h == {i \in 1..Len(s) : s[i] \in {69, 101}} IN IF h = {} THEN Len(s) + 1 ELSE CHOOSE i \in h : \A j \in h : i <= j
DPos(m) == LET h == {i \in 1..Len(m) : m[i] = DotC} IN IF h = {} THEN Len(m) + 1 ELSE CHOOSE i \in h : \A j \in h : i <= j
Mant(t) == SubSeq(Body(t), 1, EPos(Body(t)) - 1)
ExpT(t) == SubSeq(Body(t), EPos(Body(t)) + 1, Len(Body(t)))
HasE(t) == EPos(Body(t)) <= Len(Body(t))
IPart(t) == SubSeq(Mant(t), 1, DPos(Mant(t)) - 1)
FPart(t) == SubSeq(Mant(t), DPos(Mant(t)) + 1, Len(Mant(t)))
IsDecText(t) == AllDig(IPart(t)) /\ AllDig(FPart(t)) /\ (IPart(t) # <<>> \/ FPart(t) # <<>>)
                /\ (HasE(t) => IsIntText(ExpT(t)))
RECURSIVE ToInt(_)
ToInt(d) == IF d = <<>> THEN 0 ELSE 10 * ToInt(Front(d)) + (d[Len(d)] - 48)
ExpV(t) == IF ~HasE(t) THEN 0 ELSE (IF Neg(ExpT(t)) THEN -1 ELSE 1) * ToInt(Mag(ExpT(t)))
SmallExp(t) == ~HasE(t) \/ Len(Mag(ExpT(t))) <= 4
\* canonical form: 0.d1d2d3... * 10^x with d1 # 0
Digits(t) == StripTrail(StripLead(IPart(t) \o FPart(t)))
Zeros(s) == Len(s) - Len(StripLead(s))
Exp10(t) == ExpV(t) + Len(IPart(t)) - Zeros(IPart(t) \o FPart(t))
Canon(t) == IF Digits(t) = <<>> THEN [z |-> TRUE, neg |-> FALSE, d |-> <<>>, x |-> 0]
            ELSE [z |-> FALSE, neg |-> Neg(t), d |-> Digits(t), x |-> Exp10(t)]
\* numbers every double holds with fifteen digits to spare
Plain(t) == IsDecText(t) /\ SmallExp(t) /\ Len(Digits(t)) <= 15 /\ (Digits(t) = <<>> \/ Exp10(t) \in -290..300)
TooBig(t) == IsDecText(t) /\ Digits(t) # <<>> /\ ~Plain(t) /\ (IF SmallExp(t) THEN Exp10(t) > 309 ELSE ~Neg(ExpT(t)))
\* texts whose standing as numbers is left open: white space in front, hexadecimal, names of non-finite numbers
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
OpenText(t) == \/ (t # <<>> /\ t[1] \in (9..13) \cup {32})
               \/ LET b == Body(t) IN Len(b) >= 2 /\ b[1] = 48 /\ Lower(b[2]) = 120
               \/ LET b == Body(t) IN Len(b) >= 3 /\ <<Lower(b[1]), Lower(b[2]), Lower(b[3])>> \in {<<105,110,102>>, <<110,97,110>>}

\* ---- truth values
Trues == {<<121,101,115>>, <<89,101,115>>, <<89,69,83>>, <<116,114,117,101>>, <<84,114,117,101>>, <<84,82,85,69>>}
Falses == {<<110,111>>, <<78,111>>, <<78,79>>, <<102,97,108,115,101>>, <<70,97,108,115,101>>, <<70,65,76,83,69>>}

\* ---- one value: p = record of what the code answered
\* p.x.is in {yes,no,exc}, p.x.get = [k |-> "v", t |-> text] or [k |-> "exc"]
IntOk(p, want, t) == /\ p.is # "exc"
                     /\ (OpenText(t) \/ p.is = (IF want THEN "yes" ELSE "no"))
                     /\ (p.is = "yes" => p.get.k = "v")
                     /\ (p.is = "yes" /\ ~OpenText(t) => SameInt(p.get.t, t))
UIntOk(p, want, t) == IF MinusZero(t) THEN p.is # "exc" /\ (p.is = "yes" => p.get.k = "v") ELSE IntOk(p, want, t)
ScalarIs(p, t) == /\ p.is # "exc"
                  /\ (Plain(t) => p.is = "yes") /\ (TooBig(t) => p.is = "no")
                  /\ (~IsDecText(t) /\ ~OpenText(t) => p.is = "no")
ScalarOk(p, t) == /\ ScalarIs(p, t)
                  /\ (p.is = "yes" => p.get.k = "v")
                  /\ (Plain(t) => p.get.k = "v" /\ IsDecText(p.get.t) /\ Canon(p.get.t) = Canon(t))
BoolOk(p, t) == /\ p.is = (IF t \in Trues \cup Falses THEN "yes" ELSE "no")
                /\ (t \in Trues => p.get.k = "v" /\ p.get.t = "true")
                /\ (t \in Falses => p.get.k = "v" /\ p.get.t = "false")
                /\ (t \notin Trues \cup Falses => p.get.k = "exc")
ValueOk(p, t) == /\ IntOk(p.i32, IsI32(t), t) /\ IntOk(p.i64, IsI64(t), t) /\ IntOk(p.i, IsI64(t), t)
                 /\ UIntOk(p.u32, IsU32(t), t) /\ UIntOk(p.u64, IsU64(t), t)
                 /\ ScalarOk(p.r, t) /\ BoolOk(p.b, t)
                 /\ p.s.k = "v" /\ p.s.t = t
\* ---- the whole setting
Kinds == {"i32", "i64", "i", "u32", "u64", "r", "b"}
SettingOk(vals, res) ==
    LET n == Len(vals) IN
    /\ res.n = n /\ Len(res.p) = n
    /\ \A k \in 1..n : ValueOk(res.p[k], vals[k])
    /\ \A x \in Kinds : res.w[x] = (IF n # 1 THEN "no" ELSE res.p[1][x].is)        \* tests without an index
    /\ res.vec = (IF \A k \in 1..n : res.p[k].r.is = "yes" THEN "yes" ELSE "no")   \* numeric vector
    /\ \A j \in 1..Len(res.vecn) : res.vecn[j].is = (IF res.vecn[j].n = n THEN res.vec ELSE "no")
    /\ (res.vec = "yes" => /\ res.getv.k = "v" /\ Len(res.getv.t) = n
                           /\ \A k \in 1..n : Plain(vals[k]) => IsDecText(res.getv.t[k]) /\ Canon(res.getv.t[k]) = Canon(vals[k]))
    /\ res.text = vals
    /\ \A j \in 1..Len(res.beyond) : res.beyond[j] = "exc"                          \* reading past the last value
=============================================================================
