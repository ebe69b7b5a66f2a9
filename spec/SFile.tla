-------------------------------- MODULE SFile --------------------------------
(* Data files of softlib (text format "sdt", "h5", MATLAB "mat").             *)
(*                                                                            *)
(* A file holds variables (numbers with a shape, or text), attributes and     *)
(* groups.  A session opens a handle on a file for reading, writing (start    *)
(* from empty) or updating (keep what is there).  After(S, o) is the state    *)
(* after call o, Res(S, o, r) says which results r of the call are right.     *)
(*                                                                            *)
(* Names are sequences of path components.  A value is                        *)
(*   [k |-> "num",  t |-> type, d |-> dimensions, e |-> elements, fits |-> types that represent all elements exactly]   *)
(*   [k |-> "text", t |-> "text", d |-> <<>>, e |-> character codes, fits |-> <<>>]   *)
(* A result is [k |-> "ok", ...], [k |-> "lib"] (library exception),          *)
(* [k |-> "other"] (another exception) or [k |-> "null"].                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS NF, NH
NoFile == [st |-> "none"]
Raw    == [st |-> "raw"]                      \* something that is no data file
Fresh(fmt) == [st |-> "data", fmt |-> fmt, v |-> <<>>, a |-> <<>>, g |-> {}, hash |-> ""]
NoHandle == [st |-> "none"]
Closed(fmt) == [st |-> "closed", fmt |-> fmt]
InitS == [f |-> [i \in 1..NF |-> NoFile], h |-> [i \in 1..NH |-> NoHandle]]

Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
WellFormed(x) == IF x.k = "text" THEN TRUE ELSE Prod(x.d) = Len(x.e)
With(fn, key, val) == (key :> val) @@ fn      \* @@ prefers the left operand
ToSetQ(s) == {s[i] : i \in 1..Len(s)}

\* ---- what a handle sees
Hnd(S, o) == S.h[o.h]
Fil(S, o) == S.f[Hnd(S, o).f]
Structured(fmt) == fmt \in {"h5", "mat"}
\* the text format is read when opened; the others are read on demand
Vars(S, o) == IF Structured(Hnd(S, o).fmt) THEN Fil(S, o).v ELSE Hnd(S, o).view
\* during a session that writes a text file what is read is not specified
Readable(S, o) == Hnd(S, o).st = "open" /\ (Structured(Hnd(S, o).fmt) \/ Hnd(S, o).mode = "r")
Writable(S, o) == Hnd(S, o).st = "open" /\ Hnd(S, o).mode # "r"

\* ---- writing
GroupsOK(f, p) == \A i \in 1..(Len(p) - 1) : SubSeq(p, 1, i) \in f.g
CanCreate(f, p) == IF Structured(f.fmt) THEN p \notin DOMAIN f.v /\ p \notin f.g /\ GroupsOK(f, p) ELSE TRUE
\* formats without attributes keep them as variables named <variable>_<attribute>
AttrVar(ds, n) == [ds EXCEPT ![Len(ds)] = @ \o "_" \o n]
WriteVar(S, o, p, x) == LET i == Hnd(S, o).f IN
    IF Writable(S, o) /\ CanCreate(S.f[i], p) THEN [S EXCEPT !.f[i].v = With(@, p, x)] ELSE S
CanAttr(f, ds, n) == IF f.fmt = "h5" THEN ds \in DOMAIN f.v /\ <<ds, n>> \notin DOMAIN f.a ELSE CanCreate(f, AttrVar(ds, n))
Supported(fmt, o) == fmt # "sdt" \/ o.op # "multi"

OpenOK(S, o) == /\ o.dir = "ok"
                /\ o.mode \in {"r", "u"} => S.f[o.f].st = "data"
After(S, o) ==
    CASE o.op = "open"  ->
            IF ~OpenOK(S, o) THEN IF o.via = "reopen" THEN [S EXCEPT !.h[o.h] = Closed(o.fmt)] ELSE S
            ELSE LET T == IF o.mode = "w" THEN [S EXCEPT !.f[o.f] = Fresh(o.fmt)]
                          ELSE IF o.mode = "u" THEN [S EXCEPT !.f[o.f].hash = ""] ELSE S
                 IN [T EXCEPT !.h[o.h] = [st |-> "open", fmt |-> o.fmt, f |-> o.f, mode |-> o.mode, view |-> T.f[o.f].v]]
      [] o.op = "close" -> IF Hnd(S, o).st = "open" THEN [S EXCEPT !.h[o.h] = Closed(@.fmt)] ELSE S
      [] o.op = "del"   -> [S EXCEPT !.h[o.h] = NoHandle]
      [] o.op = "raw"   -> [S EXCEPT !.f[o.f] = Raw]
      [] o.op = "byhand" ->                          \* a text file written by hand: the last definition of a name counts
            [S EXCEPT !.f[o.f] = [Fresh("sdt") EXCEPT !.v = FoldLeft(LAMBDA acc, x : With(acc, x.name, x.val), <<>>, o.vars)]]
      [] o.op \in {"write", "multi"} -> IF Supported(Hnd(S, o).fmt, o) THEN WriteVar(S, o, o.name, o.val) ELSE S
      [] o.op = "attr"  -> LET i == Hnd(S, o).f IN
                           IF ~Writable(S, o) \/ ~CanAttr(S.f[i], o.ds, o.an) THEN S
                           ELSE IF S.f[i].fmt = "h5" THEN [S EXCEPT !.f[i].a = With(@, <<o.ds, o.an>>, o.val)]
                           ELSE WriteVar(S, o, AttrVar(o.ds, o.an), o.val)
      [] o.op = "struct" -> LET i == Hnd(S, o).f IN
                           IF Writable(S, o) /\ Structured(S.f[i].fmt) /\ CanCreate(S.f[i], o.name)
                           THEN [S EXCEPT !.f[i].g = @ \cup {o.name}] ELSE S
      [] o.op = "hash"  -> IF S.f[o.f].st = "data" /\ ~\E x \in 1..NH : S.h[x].st = "open" /\ S.h[x].f = o.f /\ S.h[x].mode # "r" THEN [S EXCEPT !.f[o.f].hash = o.res.hash] ELSE S
      [] OTHER -> S

\* ---- reading: want = [any], [lib], or [ok with shape d and elements e (e omitted when not representable)]
Unspec == [w |-> "any"]   Lib == [w |-> "lib"]
Ok(d, e) == [w |-> "ok", d |-> d, e |-> e, ex |-> TRUE]
Shape(d, x, ty) == IF ty \in ToSetQ(x.fits) THEN Ok(d, x.e) ELSE [w |-> "ok", d |-> d, e |-> x.e, ex |-> FALSE]
TwoD(d) == IF Len(d) = 1 THEN <<1, d[1]>> ELSE d
Kinds2 == [doubles |-> "f64", i32_2 |-> "i32", i64_2 |-> "i64", u32_2 |-> "u32", u64_2 |-> "u64", intarray |-> "i64"]
Kinds1 == [list |-> "f64", doubles1 |-> "f64", i32_1 |-> "i32", i64_1 |-> "i64", u32_1 |-> "u32", u64_1 |-> "u64", intlist |-> "i64"]
Kinds0 == [scalar |-> "f64", i32 |-> "i32", i64 |-> "i64", u32 |-> "u32", u64 |-> "u64", int |-> "i64"]
\* the text format holds numbers in double precision
Through(fmt, x) == IF fmt = "sdt" /\ "f64" \notin ToSetQ(x.fits) THEN [x EXCEPT !.fits = <<>>] ELSE x
Generic(how) == how \in {"intarray", "intlist", "int"}
WantNum(fmt, how, x0) == LET x == Through(fmt, x0) IN
    IF x.k = "text" THEN IF fmt = "mat" /\ ~Generic(how) THEN Unspec ELSE Lib    \* MATLAB text is an array of codes
    ELSE IF Len(x.d) > 2 THEN Lib
    ELSE LET d == TwoD(x.d)  vec == d[1] = 1 \/ d[2] = 1  len == IF d[1] = 1 THEN d[2] ELSE d[1] IN
      CASE how \in DOMAIN Kinds2 -> Shape(d, x, Kinds2[how])
        [] how \in DOMAIN Kinds1 -> IF vec THEN Shape(<<len>>, x, Kinds1[how])
                                    ELSE IF how = "list" \/ fmt = "sdt" \/ (how = "intlist" /\ x.t = "f64") THEN Lib
                                    ELSE [w |-> "liborflat", d |-> <<d[1] * d[2]>>, e |-> x.e, ex |-> Kinds1[how] \in ToSetQ(x.fits)]
        [] how \in DOMAIN Kinds0 -> IF d = <<1, 1>> THEN Shape(<<>>, x, Kinds0[how]) ELSE Lib
WantText(x) == IF x.k = "text" THEN Ok(<<>>, x.e) ELSE Lib
Want(S, o) ==
    IF ~Readable(S, o) THEN Unspec
    ELSE LET v == Vars(S, o) IN
         IF o.name \notin DOMAIN v THEN Lib
         ELSE IF o.how = "string" THEN WantText(v[o.name]) ELSE WantNum(Hnd(S, o).fmt, o.how, v[o.name])
WantAttr(S, o) ==
    IF ~Readable(S, o) THEN Unspec
    ELSE IF Hnd(S, o).fmt = "h5"
         THEN LET a == Fil(S, o).a  key == <<o.ds, o.an>> IN
              IF key \notin DOMAIN a THEN Lib
              ELSE IF o.how = "string" THEN WantText(a[key])
              ELSE IF a[key].k = "num" THEN Ok(<<>>, a[key].e) ELSE Lib
         ELSE Want(S, [h |-> o.h, name |-> AttrVar(o.ds, o.an), how |-> o.how])
WantMulti(S, o) ==
    IF ~Readable(S, o) THEN Unspec
    ELSE IF Hnd(S, o).fmt = "sdt" THEN Lib
    ELSE LET v == Vars(S, o) IN
         IF o.name \notin DOMAIN v THEN Lib
         ELSE LET x == v[o.name] IN
              IF x.k = "text" THEN IF Hnd(S, o).fmt = "mat" THEN Unspec ELSE Lib
              ELSE IF Len(x.d) > o.max THEN [w |-> "null", n |-> Len(x.d)]
              ELSE Shape(x.d, x, "f64")
Matches(w, r) ==
    CASE w.w = "any" -> TRUE
      [] w.w = "lib" -> r.k = "lib"
      [] w.w = "null" -> r.k = "null" /\ r.n = w.n
      [] w.w = "ok"  -> r.k = "ok" /\ r.d = w.d /\ (w.ex => r.e = w.e)
      [] w.w = "liborflat" -> r.k = "lib" \/ (r.k = "ok" /\ r.d = w.d /\ (w.ex => r.e = w.e))
TypeOf(fmt, x, hint) == IF x.k = "text" THEN "text"
                        ELSE IF fmt = "sdt" THEN IF hint \in {"undef", "text"} THEN "f64" ELSE hint
                        ELSE x.t
Ext == [h5 |-> "h5", hdf5 |-> "h5", mat |-> "mat", sdt |-> "sdt", out |-> "sdt"]

\* ---- MATLAB header: date of creation (fields of the broken-down local time)
Two(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
DayName == <<"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat">>
MonName == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
Header(c) == "MATLAB 7.3 MAT-file, Platform: libsoft, Created on: " \o DayName[c.wday + 1] \o " " \o MonName[c.mon + 1] \o " "
             \o Two(c.mday) \o " " \o Two(c.hour) \o ":" \o Two(c.min) \o ":" \o Two(c.sec) \o " " \o ToString(c.year + 1900) \o " HDF5 schema 1.00 ."

\* ---- what an ordinary HDF5 reader (of the text format: anybody) sees of a file nobody has open: r.o, the objects of the file
Idle(S, f) == S.f[f].st = "data" /\ ~\E x \in 1..NH : S.h[x].st = "open" /\ S.h[x].f = f
ClassName == [f64 |-> "double", i32 |-> "int32", i64 |-> "int64", u32 |-> "uint32", u64 |-> "uint64"]
AttrsOf(x) == [n \in {x.a[i].n : i \in 1..Len(x.a)} |-> (CHOOSE y \in ToSetQ(x.a) : y.n = n)]
Label(x) == LET a == AttrsOf(x) IN IF "MATLAB_class" \in DOMAIN a THEN a["MATLAB_class"] ELSE [t |-> "none", e |-> <<>>]
Codes == [double |-> <<100,111,117,98,108,101>>, int32 |-> <<105,110,116,51,50>>, int64 |-> <<105,110,116,54,52>>, uint32 |-> <<117,105,110,116,51,50>>,
          uint64 |-> <<117,105,110,116,54,52>>, char |-> <<99,104,97,114>>, struct |-> <<115,116,114,117,99,116>>]
Labelled(x, c) == Label(x).t = "text" /\ Label(x).e = Codes[c]
DumpVar(fmt, x, v) ==
    IF v.k = "text" THEN
         IF fmt = "h5" THEN x.t = "text" /\ x.e = v.e
         ELSE x.t = "u16" /\ x.e = v.e /\ Labelled(x, "char") /\ "MATLAB_int_decode" \in DOMAIN AttrsOf(x) /\ AttrsOf(x)["MATLAB_int_decode"].e = <<"2">>
    ELSE /\ x.t = v.t /\ x.d = v.d /\ x.e = v.e
         /\ fmt = "mat" => Labelled(x, ClassName[v.t]) \/ (Len(v.d) = 1 /\ Label(x).t = "none")
DumpAttrs(f, x) == f.fmt = "h5" =>
    LET a == AttrsOf(x)  want == {n \in {k[2] : k \in DOMAIN f.a} : <<x.name, n>> \in DOMAIN f.a} IN
    /\ DOMAIN a = want
    /\ \A n \in want : LET w == f.a[<<x.name, n>>] IN a[n].t = w.t /\ a[n].e = w.e
TextOk(f, os) == \* the last definition of a name counts
    LET last == FoldLeft(LAMBDA acc, x : With(acc, x.name, x), <<>>, os) IN
    /\ DOMAIN last = DOMAIN f.v
    /\ \A n \in DOMAIN last : LET x == last[n]  v == f.v[n] IN
         IF v.k = "text" THEN x.t = "text" /\ x.e = v.e ELSE x.t = "f64" /\ x.d = TwoD(v.d) /\ ("f64" \in ToSetQ(v.fits) => x.e = v.e)
DumpOk(f, os) == IF f.fmt = "sdt" THEN TextOk(f, os) ELSE
    LET D == {i \in 1..Len(os) : os[i].k = "data"}  G == 1..Len(os) \ D IN
    /\ {os[i].name : i \in D} = DOMAIN f.v /\ {os[i].name : i \in G} = f.g
    /\ \A i \in D : DumpVar(f.fmt, os[i], f.v[os[i].name]) /\ DumpAttrs(f, os[i])
    /\ f.fmt = "mat" => \A i \in G : Labelled(os[i], "struct")

Accepted(S, o) == \* a write that must succeed
    Writable(S, o) /\ CASE o.op = "write" -> CanCreate(Fil(S, o), o.name)
                        [] o.op = "multi" -> Supported(Fil(S, o).fmt, o) /\ CanCreate(Fil(S, o), o.name)
                        [] o.op = "attr"  -> CanAttr(Fil(S, o), o.ds, o.an)
                        [] o.op = "struct" -> CanCreate(Fil(S, o), o.name)
Res(S, o, r) ==
    CASE o.op = "open"  -> IF OpenOK(S, o) THEN r.k = "ok" ELSE r.k = "lib"
      [] o.op \in {"close", "del", "raw", "byhand"} -> r.k = "ok"
      [] o.op \in {"write", "multi", "attr"} -> IF Accepted(S, o) THEN r.k = "ok" ELSE r.k \in {"lib", "other"}
      [] o.op = "struct" -> IF Hnd(S, o).fmt = "sdt" THEN r.k = "ok" ELSE IF Accepted(S, o) THEN r.k = "ok" ELSE r.k \in {"lib", "other"}
      [] o.op = "has"   -> Readable(S, o) => r.k = "ok" /\ r.b = (o.name \in DOMAIN Vars(S, o))
      [] o.op = "type"  -> Readable(S, o) => r.k = "ok" /\ r.t = (IF o.name \in DOMAIN Vars(S, o) THEN TypeOf(Hnd(S, o).fmt, Vars(S, o)[o.name], o.hint) ELSE "undef")
      [] o.op = "get"   -> Matches(Want(S, o), r)
      [] o.op = "getattr" -> Matches(WantAttr(S, o), r)
      [] o.op = "getmulti" -> Matches(WantMulti(S, o), r)
      [] o.op = "hash"  -> r.k = "ok" /\ (S.f[o.f].st = "data" /\ S.f[o.f].hash # "" => r.hash = S.f[o.f].hash)
      [] o.op = "dump"  -> Idle(S, o.f) => r.k = "ok" /\ DumpOk(S.f[o.f], r.o)
      [] o.op = "ftype" -> r.k = "ok" /\ r.t = (IF o.ext \in DOMAIN Ext THEN Ext[o.ext] ELSE "undef")
      [] o.op = "unsup" -> r.k = "lib"
      [] o.op = "header" -> r.k = "ok" /\ r.text = Header(o.clock) /\ r.len = 116 /\ r.magic = <<0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 73, 77>>
      [] OTHER -> FALSE
=============================================================================
