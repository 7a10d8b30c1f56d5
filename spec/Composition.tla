----------------------------- MODULE Composition -----------------------------
(* A composition of software components: prototypes, outer ports and the      *)
(* connectors between them (C17).                                              *)
(*                                                                             *)
(* A component type is [n, kind, ports]; kind: swc, comp (a composition), or   *)
(* gone (prototypes refer to it, but the workspace has no such component) or   *)
(* unit (an element that is no component).  A port is [n, side], side P, R, PR.*)
(* A connector joins two ends [c, p, side]; c is "" for an outer port.         *)
EXTENDS Kit

Port(n, side) == [n |-> n, side |-> side]
Type(n, kind, ports) == [n |-> n, kind |-> kind, ports |-> ports]
End(c, p, side) == [c |-> c, p |-> p, side |-> side]
Path(lead, segs) == [lead |-> lead, segs |-> segs]

(* c: [types, protos, ports]: what exists when the history starts *)
LInit(c) == [types |-> c.types, protos |-> c.protos, ports |-> c.ports, cons |-> <<>>]
Out(st, res) == [st |-> st, res |-> res]

Nowhere == End("", "", "")
PortOf(ports, n) == IF First(ports, LAMBDA p : p.n = n) = 0 THEN Port("", "") ELSE ports[First(ports, LAMBDA p : p.n = n)]
(* the port a path names: "port" of the composition itself, or "component/port" of a part of it *)
Named(st, path) ==
  CASE path.segs = <<"">> /\ ~path.lead -> Nowhere
    [] Len(path.segs) = 1 -> LET p == PortOf(st.ports, path.segs[1]) IN End("", p.n, p.side)
    [] Len(path.segs) = 2 ->
         LET i == First(st.protos, LAMBDA x : x.n = path.segs[1]) IN
         IF i = 0 THEN Nowhere
         ELSE LET t == st.types[First(st.types, LAMBDA x : x.n = st.protos[i].t)] IN
              IF t.kind \notin {"swc", "comp"} THEN Nowhere
              ELSE LET p == PortOf(t.ports, path.segs[2]) IN End(path.segs[1], p.n, p.side)
    [] OTHER -> Nowhere
Provides(e) == e.side \in {"P", "PR"}
Requires(e) == e.side \in {"R", "PR"}
Opposite(a, b) == (a.side = "P" /\ b.side = "R") \/ (a.side = "R" /\ b.side = "P")
Con(kind, n, a, b) == [kind |-> kind, n |-> n, a |-> a, b |-> b]
NoCon == Con("", "", Nowhere, Nowhere)
Txt(e) == IF e.c = "" THEN e.p ELSE e.c \o "_" \o e.p
(* what joins two ends: kind, name and who is who; provider first, or the inner port first *)
Joined(a, b) ==
  CASE a.side = "" \/ b.side = "" -> NoCon
    [] (a.c = "") # (b.c = "") ->
         LET inner == IF a.c = "" THEN b ELSE a
             outer == IF a.c = "" THEN a ELSE b
         IN IF Opposite(inner, outer) THEN NoCon
            ELSE Con("delegation", IF outer.side = "P" THEN Txt(inner) \o "_" \o outer.p ELSE outer.p \o "_" \o Txt(inner), inner, outer)
    [] Provides(a) /\ Requires(b) -> Con(IF a.c = "" THEN "pass" ELSE "assembly", Txt(a) \o "_" \o Txt(b), a, b)
    [] Provides(b) /\ Requires(a) -> Con(IF a.c = "" THEN "pass" ELSE "assembly", Txt(b) \o "_" \o Txt(a), b, a)
    [] OTHER -> NoCon
Names(st) == Map(st.protos, LAMBDA x : x.n) \o Map(st.cons, LAMBDA x : x.n) \o Map(st.ports, LAMBDA x : x.n)
Used(st, n) == First(Names(st), LAMBDA x : x = n) > 0

Connected(st, op) == LET c == Joined(Named(st, op.a), Named(st, op.b)) IN
                     IF c.kind = "" \/ Used(st, c.n) THEN Out(st, "err") ELSE Out([st EXCEPT !.cons = Append(@, c)], "ok")
LStep(st, op) ==
  CASE op.op = "proto" -> LET n == IF op.n = "" THEN op.t ELSE op.n IN Out([st EXCEPT !.protos = Append(@, [n |-> n, t |-> op.t])], "ok")
    [] op.op = "port" -> Out([st EXCEPT !.ports = Append(@, Port(op.n, op.side))], "ok")
    [] op.op = "find" -> Out(st, LET i == First(st.protos, LAMBDA x : x.n = op.n)
                                     j == First(st.cons, LAMBDA x : x.n = op.n)
                                     k == First(st.ports, LAMBDA x : x.n = op.n)
                                 IN CASE i > 0 -> "proto " \o Str(i) [] j > 0 -> "connector " \o Str(j) [] k > 0 -> "port " \o Str(k) [] OTHER -> "none")
    [] OTHER -> Connected(st, op)
Shown(e) == (IF e.c = "" THEN "" ELSE e.c \o "/") \o e.p \o ":" \o e.side
LProj(st) == Map(st.protos, LAMBDA x : "proto " \o x.n \o " " \o x.t) \o Map(st.ports, LAMBDA x : "port " \o x.n \o " " \o x.side)
             \o Map(st.cons, LAMBDA x : x.kind \o " " \o x.n \o " " \o Shown(x.a) \o " " \o Shown(x.b))
=============================================================================
