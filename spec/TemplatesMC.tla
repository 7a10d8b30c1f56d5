---------------------------- MODULE TemplatesMC ----------------------------
(* Every set of three templates (the third may depend on the others, the     *)
(* second on the first) with histories of Depth applications                 *)
EXTENDS Templates
CONSTANTS Depth, Gives, Wide
VARIABLES st, hist
vars == <<st, hist>>
SeenAs == <<st, Len(hist)>>
T(k, n, ns, role, deps, listed, app, gives) ==
  [kind |-> k, n |-> n, ns |-> ns, role |-> role, deps |-> deps, listed |-> listed, append |-> app, gives |-> gives]
Places == {<<"N", "BASE_TYPE">>, <<"N", "!Mine">>} \cup (IF Wide THEN {<<"M", "UNIT">>, <<"N", "CONSTANT">>, <<"Z", "UNIT">>} ELSE {})
E(n, pl, deps, listed, g) == T("elem", n, pl[1], pl[2], deps, listed, ~(g \in {"own", "loose"}), IF g = "loose" THEN "elem" ELSE g)
Firsts == {E("a", pl, <<>>, l, g) : pl \in Places, l \in BOOLEAN, g \in Gives \cup {"loose"}} \cup
          {T("generic", "a", "N", "UNIT", <<>>, FALSE, TRUE, g) : g \in {"elem", "text"}}
DepsOf(S) == {<<>>} \cup {<<x>> : x \in S} \cup {<<x, y>> : x, y \in S}
Seconds == {E(n, pl, <<1>>, TRUE, g) : n \in {"a", "b"}, pl \in Places, g \in Gives} \cup
           {T("generic", "b", "N", "BASE_TYPE", <<>>, FALSE, TRUE, "elem")}
Thirds == {E(n, <<"N", "UNIT">>, d, TRUE, g) : n \in {"c"}, d \in {<<1, 2>>, <<2>>, <<2, 1>>, <<2, 2>>}, g \in {"elem", "none"}}
Loose(t) == t.kind = "elem" /\ ~t.append /\ t.gives = "elem"
(* an element outside the tree has no reference, so nothing depends on it *)
Sets == {<<a, b, c>> : a \in Firsts, b \in Seconds, c \in Thirds}
Good(s) == \A i \in 1..3 : \A d \in Elems(s[i].deps) : ~Loose(s[d])
Init == \E s \in Sets : Good(s) /\ st = TInitial(s) /\ hist = <<>>
Do(op) == LET r == Step(st, op) IN
          /\ Len(hist) < Depth
          /\ st' = r.st /\ hist' = Append(hist, op)
          /\ Emit([c |-> st.tmpl, h |-> hist', r |-> r.res, p |-> Proj(r.st)])
Applied == \E t \in 1..3 : Do([op |-> "apply", t |-> t, arg |-> IF t = 2 THEN "x" ELSE ""])
Put == Wide /\ \/ Find(st, 0, <<"P", "B">>) > 0 /\ Do([op |-> "put", path |-> <<"P", "B">>, n |-> "b"])
               \/ Find(st, 0, <<"P">>) > 0 /\ Do([op |-> "put", path |-> <<"P">>, n |-> "c"])
Ask == \E t \in {i \in 1..3 : st.tmpl[i].kind = "elem"} : Do([op |-> "ref", t |-> t])
Next == Applied \/ Put \/ Ask
Spec == Init /\ [][Next]_vars
(* on the specification: one element per template, made after those it depends on *)
Unique == \A i, j \in 1..Len(st.nodes) : i # j => PathOf(st, i) # PathOf(st, j)
Again == [][\A i \in 1..Len(st.nodes) : st'.nodes[i] = st.nodes[i]]_vars
Ordered == \A h \in 1..Len(hist) : hist[h].op = "apply" =>
             LET t == st.tmpl[hist[h].t] p == RolePath(t.ns, t.role) i == Find(st, 0, Append(p, t.n))
             IN (t.kind = "elem" /\ p # <<>> /\ i # 0 /\ ~Wide /\ t.gives # "none") =>
                  \A d \in Elems(t.deps) : Find(st, 0, Append(RolePath(st.tmpl[d].ns, st.tmpl[d].role), st.tmpl[d].n)) # 0
=============================================================================
