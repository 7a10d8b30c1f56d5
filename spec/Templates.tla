----------------------------- MODULE Templates -----------------------------
(* Applying templates in a workspace (C14).                                  *)
(*                                                                           *)
(* A template [kind, n, ns, role, deps, listed, append, gives]: an element   *)
(* template announces an element named n in the package its namespace's role *)
(* selects; deps are the templates (by number) it depends on, listed when it *)
(* gives a list at all; gives says what its create step does: "elem" returns *)
(* a new element, "own" adds the element to the package itself, "none",      *)
(* "text", "package" return no element, "raise" raises.  A generic template *)
(* finds or adds its element itself.                                         *)
(*                                                                           *)
(* State: the package tree (nodes in order of creation; o numbers the        *)
(* elements made), the create steps run so far, in order.                    *)
EXTENDS Kit

RolePath(ns, r) ==
  CASE ns = "N" /\ r = "BASE_TYPE" -> <<"P", "B">>
    [] ns = "N" /\ r = "UNIT" -> <<"P">>
    [] ns = "N" /\ r = "!Mine" -> <<"P", "B", "M">>
    [] ns = "M" /\ r = "UNIT" -> <<"Q">>
    [] ns = "M" /\ r = "BASE_TYPE" -> <<"P", "B">>
    [] OTHER -> <<>>          \* no such role or namespace
Node(k, n, up, o) == [k |-> k, n |-> n, up |-> up, o |-> o]
TInitial(c) == [tmpl |-> c, nodes |-> <<>>, made |-> 0, log |-> <<>>]
Child(st, i, n) == First(st.nodes, LAMBDA x : x.up = i /\ x.n = n)
RECURSIVE Find(_, _, _), PathOf(_, _), Make(_, _, _)
Find(st, i, path) == IF path = <<>> THEN i ELSE LET j == Child(st, i, path[1]) IN IF j = 0 THEN 0 ELSE Find(st, j, Tail(path))
PathOf(st, i) == IF i = 0 THEN "" ELSE PathOf(st, st.nodes[i].up) \o "/" \o st.nodes[i].n
Make(st, i, path) ==
  IF path = <<>> THEN [st |-> st, id |-> i]
  ELSE LET j == Child(st, i, path[1])
       IN IF j = 0 THEN LET s1 == [st EXCEPT !.nodes = Append(@, Node("pkg", path[1], i, 0))] IN Make(s1, Len(s1.nodes), Tail(path))
          ELSE IF st.nodes[j].k = "pkg" THEN Make(st, j, Tail(path)) ELSE [st |-> st, id |-> 0]
Shown(st, i) == "el:" \o PathOf(st, i) \o "#" \o Str(st.nodes[i].o)

Out(st, res, id) == [st |-> st, res |-> res, id |-> id]
RECURSIVE Apply(_, _, _), Depend(_, _, _, _), ByNumber(_, _)
(* a dependency must come out as an element of the tree; given collects their references *)
Depend(st, deps, k, given) ==
  IF k > Len(deps) THEN [st |-> st, ok |-> TRUE, given |-> given]
  ELSE LET r == Apply(st, deps[k], "")
       IN IF r.res = "err" \/ r.id = 0 THEN [st |-> r.st, ok |-> FALSE, given |-> given]
          ELSE Depend(r.st, deps, k + 1, given \cup {r.id})
AddElem(st, p, t) == [st EXCEPT !.nodes = Append(@, Node("elem", t.n, p, st.made + 1)), !.made = @ + 1]
Apply(st, ix, arg) ==
  LET t == st.tmpl[ix] path == RolePath(t.ns, t.role) IN
  IF t.kind = "generic" THEN
    LET mk == Make(st, 0, path)
        old == Child(mk.st, mk.id, t.n)
        s1 == [mk.st EXCEPT !.log = Append(@, t.n \o ":generic:" \o arg)]
        s2 == AddElem(s1, mk.id, t)
    IN IF mk.id = 0 THEN Out(mk.st, "err", 0)
       ELSE IF t.gives = "text" THEN Out(s1, "text", 0)
       ELSE IF old # 0 THEN Out(s1, Shown(s1, old), old)
       ELSE Out(s2, Shown(s2, Len(s2.nodes)), Len(s2.nodes))
  ELSE
    LET dep == Depend(st, t.deps, 1, {}) IN
    IF ~dep.ok THEN Out(dep.st, "err", 0)
    ELSE IF path = <<>> THEN Out(dep.st, "err", 0)
    ELSE LET mk == Make(dep.st, 0, path) IN
    IF mk.id = 0 THEN Out(mk.st, "err", 0)
    ELSE LET old == Child(mk.st, mk.id, t.n) IN
    IF old # 0 THEN Out(mk.st, Shown(mk.st, old), old)
    ELSE LET handed == IF t.listed THEN Join(Map(ByNumber(mk.st, dep.given), LAMBDA i : Shown(mk.st, i)), ",") ELSE "nothing"
             s1 == [mk.st EXCEPT !.log = Append(@, t.n \o ":" \o PathOf(mk.st, mk.id) \o ":" \o handed \o ":" \o arg)]
         IN IF t.gives \in {"none", "text", "package", "raise"} THEN Out(s1, "err", 0)
            ELSE IF ~t.append /\ t.gives # "own" THEN Out([s1 EXCEPT !.made = @ + 1], "loose#" \o Str(s1.made + 1), 0)
            ELSE LET s2 == AddElem(s1, mk.id, t) IN Out(s2, Shown(s2, Len(s2.nodes)), Len(s2.nodes))
ByNumber(st, S) == IF S = {} THEN <<>>
                   ELSE LET x == CHOOSE y \in S : \A z \in S : st.nodes[y].o <= st.nodes[z].o IN <<x>> \o ByNumber(st, S \ {x})

Step(st, op) ==
  CASE op.op = "apply" -> LET r == Apply(st, op.t, op.arg) IN [st |-> r.st, res |-> r.res]
    [] op.op = "put" ->    \* the user adds an element
         LET p == Find(st, 0, op.path) IN
         IF p = 0 \/ st.nodes[p].k # "pkg" \/ Child(st, p, op.n) # 0 THEN [st |-> st, res |-> "err"]
         ELSE [st |-> AddElem(st, p, op), res |-> "ok"]
    [] OTHER ->            \* the reference the template announces
         LET t == st.tmpl[op.t] path == RolePath(t.ns, t.role) IN
         [st |-> st, res |-> IF path = <<>> THEN "err" ELSE "/" \o Join(path, "/") \o "/" \o t.n]
NodeLine(st, i) == PathOf(st, i) \o " " \o Str(st.nodes[i].o)
RECURSIVE Tree(_, _)
Ids(st) == [i \in 1..Len(st.nodes) |-> i]
Tree(st, i) == Map(Keep(Ids(st), LAMBDA j : st.nodes[j].up = i /\ st.nodes[j].k = "elem"), LAMBDA j : NodeLine(st, j)) \o
               Flat(Map(Keep(Ids(st), LAMBDA j : st.nodes[j].up = i /\ st.nodes[j].k = "pkg"), LAMBDA j : <<NodeLine(st, j)>> \o Tree(st, j)))
Proj(st) == Tree(st, 0) \o st.log
=============================================================================
