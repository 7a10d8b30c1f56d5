------------------------------- MODULE Limits -------------------------------
(* Data constraints, what they accept, and computation tables (C22).          *)
(*                                                                            *)
(* Numbers are points of a line: Line lists literals in ascending order, so   *)
(* comparing two numbers is comparing their places.  "" is no number.         *)
(* A limit pair is part of a constraint [lo, hi, lot, hit, ...]; lot and hit  *)
(* are CLOSED or OPEN.  A constraint also has scales (a sequence of limit     *)
(* pairs with a label and a validity), gradient, difference, monotony and - a *)
(* physical one - a unit.                                                     *)
EXTENDS Kit

Line == <<"-inf", "-1e+30", "-2", "-1", "-0.5", "0", "0.25", "0.5", "1", "2", "3", "7", "254.5", "255", "256", "65535", "4294967295", "18446744073709551615",
          "18446744073709551616", "1e+30", "inf">>
At(x) == CHOOSE i \in 1..Len(Line) : Line[i] = x
Place == TLCGet(41)
ASSUME TLCSet(41, TLCEval([x \in Elems(Line) |-> At(x)]))
Less(x, y) == Place[x] < Place[y]

Inside(c, x) ==
  /\ c.lo # "" => (Less(c.lo, x) \/ (c.lo = x /\ c.lot = "CLOSED"))
  /\ c.hi # "" => (Less(x, c.hi) \/ (c.hi = x /\ c.hit = "CLOSED"))

Pair(lo, hi, lot, hit) == [lo |-> lo, hi |-> hi, lot |-> lot, hit |-> hit]
(* when a limit is absent its interval type says nothing and is not written *)
Kept(c) == [c EXCEPT !.lot = IF c.lo = "" THEN "CLOSED" ELSE @, !.hit = IF c.hi = "" THEN "CLOSED" ELSE @]
Limit(x, t) == IF x = "" THEN "-" ELSE x \o (IF t = "OPEN" THEN "!" ELSE "")
Limits(c) == Limit(c.lo, c.lot) \o ".." \o Limit(c.hi, c.hit)

ScaleShape(s) == Limits(s) \o "{" \o s.label \o "," \o s.validity \o "}"
ConShape(c) == Limits(c) \o " g=" \o c.grad \o " d=" \o c.diff \o " m=" \o c.mono \o " u=" \o c.unit \o " s=[" \o Join(Map(c.scales, ScaleShape), ",") \o "]"
RuleShape(r) == (IF r.int = <<>> THEN "" ELSE "internal " \o ConShape(r.int[1])) \o "/" \o (IF r.phys = <<>> THEN "" ELSE "physical " \o ConShape(r.phys[1]))
                \o "/" \o r.level

-----------------------------------------------------------------------------
(* computations: a scale is [lo, hi, lot, hit, kind, val, num, label]          *)
Const(v) == [t |-> v.t, v |-> v.v]
Nothing == [t |-> "none", v |-> ""]
Scale(p, kind, val, num, label) == [lo |-> p.lo, hi |-> p.hi, lot |-> p.lot, hit |-> p.hit, kind |-> kind, val |-> val, num |-> num, label |-> label]
Closed(lo, hi) == Pair(lo, hi, "CLOSED", "CLOSED")
(* one item of a value table: [t: text, v] | [t: two, lo, val] | [t: three, lo, hi, val] | anything else *)
BadScale == Scale(Closed("", ""), "err", Nothing, <<>>, "")
Labelled(val, auto) == IF auto /\ val.t = "text" THEN val.v ELSE ""
Row(item, i, auto) ==
  CASE item.t = "text" -> Scale(Closed(Str(i - 1), Str(i - 1)), "const", [t |-> "text", v |-> item.v], <<>>, IF auto THEN item.v ELSE "")
    [] item.t = "two" -> Scale(Closed(item.lo, item.lo), "const", item.val, <<>>, Labelled(item.val, auto))
    [] item.t = "three" -> Scale(Closed(item.lo, item.hi), "const", item.val, <<>>, Labelled(item.val, auto))
    [] OTHER -> BadScale
Table(items, auto) == [i \in 1..Len(items) |-> Row(items[i], i, auto)]
Rational(f, o, p) == <<Scale(p, "rational", Nothing, <<o, f>>, "")>>
ValShape(v) == CASE v.t = "none" -> "-" [] v.t = "text" -> "'" \o v.v \o "'" [] OTHER -> v.v
RowShape(s) == Limits(s) \o "=" \o (IF s.kind = "const" THEN ValShape(s.val) ELSE "(" \o s.num[1] \o "," \o s.num[2] \o ")/1") \o "<" \o s.label \o ">"
CompShape(c) == "[" \o Join(Map(c.scales, RowShape), ",") \o "] default=" \o ValShape(c.default)

-----------------------------------------------------------------------------
(* a history over constraints (con) and computations (comp)                   *)
Con(rules) == [k |-> "con", rules |-> rules, comp |-> [scales |-> <<>>, default |-> Nothing]]
Comp(scales, default) == [k |-> "comp", rules |-> <<>>, comp |-> [scales |-> scales, default |-> default]]
Rule(int, phys, level) == [int |-> int, phys |-> phys, level |-> level]

NInit(c) == [objs |-> <<>>]
Out(st, res) == [st |-> st, res |-> res]
Added(st, o) == Out([st EXCEPT !.objs = Append(@, o)], "ok")
Side(r, side) == IF side = "int" THEN r.int ELSE r.phys
Target(st, op) == LET c == Side(st.objs[op.i].rules[op.r], op.side)[1] IN IF op.s = 0 THEN c ELSE c.scales[op.s]
(* the constraint op points at becomes what F makes of it *)
SetLimit(c, op) == IF op.end = "lo" THEN [c EXCEPT !.lo = op.x, !.lot = op.t] ELSE [c EXCEPT !.hi = op.x, !.hit = op.t]
Put(c, op) == IF op.s = 0 THEN SetLimit(c, op) ELSE [c EXCEPT !.scales[op.s] = SetLimit(@, op)]
Saved(c) == [Kept(c) EXCEPT !.scales = Map(@, Kept)]
SavedRule(r) == [r EXCEPT !.int = Map(@, Saved), !.phys = Map(@, Saved)]
NStep(st, op) ==
  CASE op.op = "con" -> Added(st, Con(op.rules))
    [] op.op = "one" -> Added(st, Con(<<IF op.side = "int" THEN Rule(<<op.c>>, <<>>, "") ELSE Rule(<<>>, <<op.c>>, "")>>))
    [] op.op = "table" -> LET rows == Table(op.items, op.auto)
                          IN IF (\E i \in 1..Len(rows) : rows[i].kind = "err") \/ op.default.t = "bad" THEN Out(st, "err") ELSE Added(st, Comp(rows, Const(op.default)))
    [] op.op = "rational" -> IF op.default.t = "bad" THEN Out(st, "err")
                             ELSE Added(st, Comp(Rational(op.f, op.o, Kept(Pair(op.lo, op.hi, op.lot, op.hit))), Const(op.default)))
    [] op.op = "check" -> Out(st, IF Inside(Target(st, op), op.x) THEN "inside" ELSE "outside")
    [] op.op = "limit" -> Out(IF op.side = "int" THEN [st EXCEPT !.objs[op.i].rules[op.r].int[1] = Put(@, op)]
                              ELSE [st EXCEPT !.objs[op.i].rules[op.r].phys[1] = Put(@, op)], "ok")
    (* everything is written to a document and read again *)
    [] OTHER -> Out([st EXCEPT !.objs = Map(@, LAMBDA o : [o EXCEPT !.rules = Map(@, SavedRule)])], "ok")
Shape(o) == IF o.k = "con" THEN "constraint " \o Join(Map(o.rules, RuleShape), "; ") ELSE "computation " \o CompShape(o.comp)
NProj(st) == Map(st.objs, Shape)
=============================================================================
