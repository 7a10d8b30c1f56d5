---------------------------- MODULE ValueSpecMC ----------------------------
(* Part "leaf": every single value, well or badly formed, by every route.    *)
(* Part "tree": lists over labelled values, lists within lists.              *)
(* Part "grow": values put into one another.                                 *)
EXTENDS ValueSpec
CONSTANTS Part_, Depth
VARIABLES st, hist
vars == <<st, hist>>
SeenAs == st
Init == st = VInit(0) /\ hist = <<>>
Do(op) == LET r == VStep(st, op) IN
          /\ Len(hist) < Depth
          /\ st' = r.st /\ hist' = Append(hist, op)
          /\ Emit([c |-> 0, h |-> hist', r |-> r.res, p |-> VProj(r.st)])
MakeIt(route, d) == Do([op |-> "make", route |-> route, d |-> d])
Into(i, j) == Do([op |-> "into", i |-> i, j |-> j])
Wrong1(j, t) == Do([op |-> "wrong", j |-> j, t |-> t])
Save == Do([op |-> "save"])

Routes == {"value", "constant", "init", "sender", "receiver", "provided", "required"}
Odds == {Odd("ref", "/C/x"), Odd("spec", "1"), Odd("bytes", "x"), Odd("dict", ""), Odd("set", ""), Odd("object", "")}
Plain == {Num("0"), Num("-3"), Num("2.5"), Num("18446744073709551615"), Text("on"), Text("A"), Text("7"), None}
Labels == {Text("L"), Text("A")}
Pairs(S) == {Tuple(<<l, d>>) : l \in Labels, d \in S}
Patterned == {Tuple(<<Text("L"), None, p>>) : p \in {Num("0"), Num("255"), Num("-1"), None}}
BadTuples == {Tuple(<<>>), Tuple(<<Text("L")>>), Tuple(<<Num("1"), Num("2")>>), Tuple(<<None, Num("2")>>), Tuple(<<Text("L"), Num("1"), Num("2")>>),
              Tuple(<<Text("L"), None, Num("1"), Num("2")>>), Tuple(<<Text("L"), Text("x"), Num("0")>>)}
Heads == {Text("A"), Text("ARRAY"), Text("R"), Text("RECORD"), Text("array"), Text("r"), Text("X"), Text("AR"), Num("1"), None}
Good == {List(<<Text("A")>>), List(<<Text("R")>>), List(<<Text("A"), Num("1")>>), List(<<Text("RECORD"), Tuple(<<Text("f"), Text("x")>>)>>)}
Leaves == Plain \cup Pairs(Plain) \cup Patterned \cup BadTuples \cup Odds \cup Pairs(Odds) \cup {List(<<>>)} \cup {List(<<h>>) : h \in Heads}
          \cup {List(<<h, Num("1"), Num("2")>>) : h \in Heads} \cup Pairs(Good) \cup {Tuple(<<Text("L"), Tuple(<<Text("M"), Num("1")>>)>>)} \cup {List(<<Tuple(<<Text("A"), Num("1")>>), Num("2")>>)}
Items == {Num("1"), Num("2"), Text("on"), None, Tuple(<<Text("L"), Num("1")>>), Tuple(<<Text("L"), None, Num("9")>>)} \cup Good \cup Pairs(Good)
         \cup {Odd("spec", "1"), Tuple(<<Num("1"), Num("2")>>), List(<<Text("X"), Num("1")>>)}
Marks == {Text("A"), Text("R")}
Trees == {List(<<m, a, b>>) : m \in Marks, a \in Items, b \in Items} \cup Pairs({List(<<m, a, b>>) : m \in Marks, a \in Good, b \in Items})
         \cup {List(<<m, List(<<n, a, List(<<o, b>>)>>), c>>) : m, n, o \in Marks, a \in Good, b \in {Num("1"), Tuple(<<Text("L"), Num("2")>>)}, c \in {Text("end"), Num("3")}}
Leaf == Part_ = "leaf" /\ \E r \in Routes : \E d \in Leaves : MakeIt(r, d)
Tree == Part_ = "tree" /\ \E r \in {"value", "required"} : \E d \in Trees : MakeIt(r, d)
Few == {Num("1"), Tuple(<<Text("L"), Text("on")>>), List(<<Text("A"), Num("7")>>), Tuple(<<Text("M"), List(<<Text("R")>>)>>), Tuple(<<Text("L"), None, Num("9")>>)}
Grow == Part_ = "grow" /\
  \/ \E r \in {"value"} : \E d \in Few : Len(st.vals) < 3 /\ MakeIt(r, d)
  \/ \E i, j \in 1..Len(st.vals) : i # j /\ Into(i, j)
  \/ \E j \in 1..Len(st.vals) : st.vals[j].k \in {"A", "R"} /\ Wrong1(j, "object")
  \/ st.vals # <<>> /\ Save
Next == Leaf \/ Tree \/ Grow
Spec == Init /\ [][Next]_vars

(* on the specification: a made value has exactly the numbers and texts of the data, in order *)
RECURSIVE Atoms(_)
Atoms(d) == CASE d.t \in {"num", "text"} -> <<d.v>>
              [] d.t = "list" -> Flat([i \in 1..(Len(d.xs) - 1) |-> Atoms(d.xs[i + 1])])
              [] d.t = "tuple" -> Flat([i \in 1..Len(d.xs) |-> Atoms(d.xs[i])])
              [] OTHER -> <<>>
RECURSIVE Contents(_)
Contents(v) == v.label \o (IF v.v = "" THEN <<>> ELSE <<v.v>>) \o Flat([i \in 1..Len(v.xs) |-> Contents(v.xs[i])])
RECURSIVE Size(_)
Size(v) == IF v.xs = <<>> THEN 1 ELSE 1 + Size([v EXCEPT !.xs = Tail(@)]) + Size(v.xs[1]) - 1
ASSUME \A d \in Leaves \cup Trees : Make(d).k = "err" \/ Contents(Make(d)) = Atoms(d)
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Size(s[1]) + Total(Tail(s))
NothingLost == [][Total(st'.vals) >= Total(st.vals)]_vars
=============================================================================
