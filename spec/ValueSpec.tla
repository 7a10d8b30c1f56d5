----------------------------- MODULE ValueSpec -----------------------------
(* Value specifications made from Python data (C21).                         *)
(*                                                                           *)
(* Data is [t, v, xs]: t is num, text, none, list or tuple (v: the literal   *)
(* of a number or text; xs: the items), or one of the things no value is     *)
(* made from inside data: ref (a constant reference), spec (a ready-made     *)
(* value specification), bytes, dict, set, object.                           *)
(* A made value is [k, label, v, xs]: k is N(umber), T(ext), U(navailable),  *)
(* A(rray), R(ecord) or C(onstant reference); label is <<>> or <<text>>.     *)
EXTENDS Kit

Num(v) == [t |-> "num", v |-> v, xs |-> <<>>]
Text(v) == [t |-> "text", v |-> v, xs |-> <<>>]
None == [t |-> "none", v |-> "", xs |-> <<>>]
List(xs) == [t |-> "list", v |-> "", xs |-> xs]
Tuple(xs) == [t |-> "tuple", v |-> "", xs |-> xs]
Odd(t, v) == [t |-> t, v |-> v, xs |-> <<>>]

Value(k, label, v, xs) == [k |-> k, label |-> label, v |-> v, xs |-> xs]
Bad == Value("err", <<>>, "", <<>>)
ArrayMarks == {"A", "a", "ARRAY", "array", "Array"}
RecordMarks == {"R", "r", "RECORD", "record", "Record"}

(* [ok, label, body, pattern] of data: a tuple is (label, value) or (label, None, pattern) *)
Part(ok, label, body, pattern) == [ok |-> ok, label |-> label, body |-> body, pattern |-> pattern]
Wrong == Part(FALSE, <<>>, None, "")
Nonneg(d) == d.t = "num" /\ ~StartsWith(d.v, "-")
Taken(d) == CASE d.t # "tuple" -> Part(TRUE, <<>>, d, "")
              [] Len(d.xs) \notin {2, 3} -> Wrong
              [] d.xs[1].t # "text" -> Wrong
              [] Len(d.xs) = 2 -> Part(TRUE, <<d.xs[1].v>>, d.xs[2], "")
              [] d.xs[2].t # "none" -> Wrong
              [] d.xs[3].t = "none" -> Part(TRUE, <<d.xs[1].v>>, None, "")
              [] Nonneg(d.xs[3]) -> Part(TRUE, <<d.xs[1].v>>, None, d.xs[3].v)
              [] OTHER -> Wrong
RECURSIVE Make(_)
Make(d) == LET p == Taken(d)
               b == p.body
           IN CASE ~p.ok -> Bad
                [] b.t = "num" -> Value("N", p.label, b.v, <<>>)
                [] b.t = "text" -> Value("T", p.label, b.v, <<>>)
                [] b.t = "none" -> Value("U", p.label, p.pattern, <<>>)
                [] b.t = "list" /\ b.xs # <<>> ->
                     LET mark == b.xs[1]
                         made == [i \in 1..(Len(b.xs) - 1) |-> Make(b.xs[i + 1])]
                     IN CASE mark.t # "text" \/ mark.v \notin ArrayMarks \cup RecordMarks -> Bad
                          [] \E i \in 1..Len(made) : made[i].k = "err" -> Bad
                          [] OTHER -> Value(IF mark.v \in ArrayMarks THEN "A" ELSE "R", p.label, "", made)
                [] OTHER -> Bad

(* initial values: nothing at all, constants by reference and ready-made specifications are taken as well *)
NoValue == Value("none", <<>>, "", <<>>)
Initial(d) == CASE d.t = "none" -> NoValue
                [] d.t = "ref" -> Value("C", <<>>, d.v, <<>>)
                [] d.t = "spec" -> Value("same", <<>>, d.v, <<>>)
                [] OTHER -> Make(d)
Made(route, d) == IF route \in {"value", "constant"} THEN Make(d) ELSE Initial(d)

RECURSIVE Shape(_)
Shape(v) == v.k \o (IF v.label = <<>> THEN "" ELSE "<" \o v.label[1] \o ">") \o (IF v.v = "" /\ v.k # "T" THEN "" ELSE ":" \o v.v)
            \o (IF v.k \in {"A", "R"} THEN "[" \o Join([i \in 1..Len(v.xs) |-> Shape(v.xs[i])], ",") \o "]" ELSE "")

-----------------------------------------------------------------------------
(* a history: values are made, put into arrays and records, and saved        *)
VInit(c) == [vals |-> <<>>]
Out(st, res) == [st |-> st, res |-> res]
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
VStep(st, op) ==
  CASE op.op = "make" ->
         LET v == Made(op.route, op.d) IN
         IF v.k \in {"err", "same", "none"} THEN Out(st, Shape(v))
         ELSE Out([st EXCEPT !.vals = Append(@, v)], "ok")
    (* puts value i at the end of value j *)
    [] op.op = "into" ->
         IF st.vals[op.j].k \notin {"A", "R"} THEN Out(st, "err")
         ELSE LET grown == [st.vals EXCEPT ![op.j].xs = Append(@, st.vals[op.i])] IN Out([st EXCEPT !.vals = Without(grown, op.i)], "ok")
    (* arrays and records take value specifications only *)
    [] op.op = "wrong" -> Out(st, "err")
    (* every value becomes a constant, the document is written and read *)
    [] OTHER -> Out(st, "ok")
VProj(st) == Map(st.vals, Shape)
=============================================================================
