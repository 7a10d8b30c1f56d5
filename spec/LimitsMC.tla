------------------------------ MODULE LimitsMC ------------------------------
(* Part "check": every pair of limits, each closed, open or absent, asked     *)
(* about every number of the line.                                            *)
(* Part "make": every argument of the factories, one away from the others.    *)
(* Part "table": every list of table items.   Part "grow": histories.         *)
EXTENDS Limits
CONSTANTS Part, Depth
VARIABLES st, hist
vars == <<st, hist>>
SeenAs == st
Init == st = NInit(0) /\ hist = <<>>
Do(op) == LET r == NStep(st, op) IN
          /\ Len(hist) < Depth
          /\ st' = r.st /\ hist' = Append(hist, op)
          /\ Emit([c |-> 0, h |-> hist', r |-> r.res, p |-> NProj(r.st)])
One(side, c, route) == Do([op |-> "one", side |-> side, c |-> c, route |-> route])
Rules(rs) == Do([op |-> "con", rules |-> rs])
MakeTable(items, default, auto) == Do([op |-> "table", items |-> items, default |-> default, auto |-> auto])
MakeRational(f, o, p, default) == Do([op |-> "rational", f |-> f, o |-> o, lo |-> p.lo, hi |-> p.hi, lot |-> p.lot, hit |-> p.hit, default |-> default])
SetIt(i, r, side, s, end, x, t) == Do([op |-> "limit", i |-> i, r |-> r, side |-> side, s |-> s, end |-> end, x |-> x, t |-> t])
Save == Do([op |-> "save"])

Kinds == {"CLOSED", "OPEN"}
S(p, label, validity) == [lo |-> p.lo, hi |-> p.hi, lot |-> p.lot, hit |-> p.hit, label |-> label, validity |-> validity]
C(p, scales, grad, diff, mono, unit) ==
  [lo |-> p.lo, hi |-> p.hi, lot |-> p.lot, hit |-> p.hit, scales |-> scales, grad |-> grad, diff |-> diff, mono |-> mono, unit |-> unit]
Bare(p) == C(p, <<>>, "", "", "", "")
Ends == {"", "-inf", "-1", "0", "0.5", "1", "255", "18446744073709551615", "inf"}
AllPairs == {Pair(lo, hi, a, b) : lo \in Ends, hi \in Ends, a \in Kinds, b \in Kinds}
Wanted == {p \in AllPairs : (p.lo = "" => p.lot = "CLOSED") /\ (p.hi = "" => p.hit = "CLOSED")}
P01 == Pair("0", "255", "CLOSED", "OPEN")
Scales == {<<>>, <<S(P01, "", "VALID")>>, <<S(Pair("1", "2", "OPEN", "CLOSED"), "low", "NOT_VALID"), S(Pair("3", "7", "CLOSED", "CLOSED"), "high", "")>>}
Varied(unit) == {C(p, <<>>, "", "", "", unit) : p \in {P01, Pair("", "1", "CLOSED", "OPEN"), Pair("-1", "", "OPEN", "CLOSED"), Pair("0", "0", "CLOSED", "CLOSED")}}
          \cup {C(P01, s, "", "", "", unit) : s \in Scales} \cup {C(P01, <<>>, g, d, "", unit) : g, d \in {"", "0", "1", "0.5"}}
          \cup {C(P01, <<>>, "", "", m, unit) : m \in {"", "DECREASING", "INCREASING", "MONOTONOUS", "NO_MONOTONY", "STRICTLY_DECREASING", "STRICTLY_INCREASING", "STRICT_MONOTONOUS"}}
          \cup {C(Pair("1", "2", "OPEN", "OPEN"), s, "3", "7", "INCREASING", unit) : s \in Scales}
Check == Part = "check" /\ \E side \in {"int", "phys"} : \E p \in Wanted : One(side, Bare(p), IF side = "int" THEN "make" ELSE "class")
V(t, v) == [t |-> t, v |-> v]
Item(t, v, lo, hi, val) == [t |-> t, v |-> v, lo |-> lo, hi |-> hi, val |-> val]
Txt(v) == Item("text", v, "", "", Nothing)
Two(lo, val) == Item("two", "", lo, "", val)
Three(lo, hi, val) == Item("three", "", lo, hi, val)
Odd(t) == Item(t, "", "", "", Nothing)
Defaults == {Nothing, V("num", "0"), V("num", "255"), V("num", "0.5"), V("text", "unknown"), V("const", "7"), V("bad", "")}
Units == {"", "/U/km"}
Make == Part = "make" /\
  \/ \E route \in {"make", "class"} : \E unit \in Units : \E c \in Varied(unit) : One("phys", c, route)
  \/ \E route \in {"make", "class"} : \E c \in Varied("") : One("int", c, route)
  \/ \E level \in {"", "0", "1"} : \E a \in {<<>>, <<Bare(P01)>>} : \E b \in {<<>>, <<C(Pair("1", "", "OPEN", "CLOSED"), <<>>, "1", "", "", "/U/m")>>} :
       \E rest \in {<<>>, <<Rule(<<Bare(Pair("2", "3", "CLOSED", "CLOSED"))>>, <<>>, "1")>>} : a \o b # <<>> /\ Rules(<<Rule(a, b, level)>> \o rest)
  \/ \E f \in {"1", "0.25", "-2", "0"} : \E o \in {"0", "-0.5", "3", "9007199254740993"} : \E p \in {Closed("", ""), P01, Pair("-1", "0.5", "OPEN", "CLOSED")} : \E d \in Defaults : MakeRational(f, o, p, d)
Items == {Txt("off"), Txt("on"), Two("7", V("text", "seven")), Two("-1", V("num", "2")), Three("2", "255", V("text", "rest")), Three("0", "0.5", V("num", "1")), Odd("one"), Odd("four"), Odd("list"), Odd("num")}
Tables == Part = "table" /\ \E auto \in BOOLEAN :
  \/ \E n \in 0..2 : \E items \in [1..n -> Items] : \E d \in {Nothing, V("text", "unknown")} : MakeTable(items, d, auto)
  \/ \E a, b \in {Txt("a"), Txt("off"), Two("7", V("text", "off")), Three("2", "3", V("text", "x"))} : MakeTable(<<a, b, Txt("c"), a>>, Nothing, auto)
  \/ \E d \in Defaults : MakeTable(<<Txt("off")>>, d, auto)
Grow == Part = "grow" /\
  \/ Len(st.objs) < 2 /\ \E side \in {"int", "phys"} : One(side, C(P01, <<S(Pair("1", "2", "CLOSED", "CLOSED"), "s", "VALID")>>, "", "", "", ""), "make")
  \/ Len(st.objs) < 2 /\ MakeTable(<<Txt("off"), Two("7", V("text", "seven"))>>, V("num", "1"), TRUE)
  \/ \E i \in 1..Len(st.objs) : st.objs[i].k = "con" /\ \E s \in {0, 1} : \E end \in {"lo", "hi"} : \E x \in {"", "1"} : \E t \in Kinds :
       SetIt(i, 1, IF st.objs[i].rules[1].int = <<>> THEN "phys" ELSE "int", s, end, x, t)
  \/ st.objs # <<>> /\ Save
Next == Check \/ Make \/ Tables \/ Grow
Spec == Init /\ [][Next]_vars

Points(o) == LET sides == Keep(<<"int", "phys">>, LAMBDA x : Side(o.rules[1], x) # <<>>)
             IN Flat(Map(sides, LAMBDA x : <<[side |-> x, s |-> 0]>> \o [s \in 1..Len(Side(o.rules[1], x)[1].scales) |-> [side |-> x, s |-> s]]))
Probes == IF Part = "check" THEN Line ELSE <<"-1", "0", "0.5", "1", "2", "255", "inf">>
Ask(i, pt, x) == [op |-> "check", i |-> i, r |-> 1, side |-> pt.side, s |-> pt.s, x |-> x]
Asking == Flat([i \in 1..Len(st.objs) |-> IF st.objs[i].k # "con" THEN <<>> ELSE Flat(Map(Points(st.objs[i]), LAMBDA pt : Map(Probes, LAMBDA x : Ask(i, pt, x))))])
EmitAsking == Asking = <<>> \/ Emit([c |-> 0, h |-> hist, q |-> Asking, qr |-> Map(Asking, LAMBDA q : NStep(st, q).res)])

(* on the specification: what a constraint accepts is an interval of the line, open ends excluded, and writing changes nothing about it *)
Cons == Flat(Map(st.objs, LAMBDA o : Flat(Map(o.rules, LAMBDA r : r.int \o r.phys))))
Convex == \A c \in Elems(Cons) : \A x, y, z \in Elems(Line) : Less(x, y) /\ Less(y, z) /\ Inside(c, x) /\ Inside(c, z) => Inside(c, y)
EndsRight == \A c \in Elems(Cons) : (c.lo # "" /\ c.lot = "OPEN" => ~Inside(c, c.lo)) /\ (c.hi # "" /\ c.hit = "OPEN" => ~Inside(c, c.hi))
SaveKeeps == \A c \in Elems(Cons) : \A x \in Elems(Line) : Inside(c, x) = Inside(Saved(c), x)
=============================================================================
