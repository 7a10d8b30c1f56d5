------------------------------- MODULE ViewsMC -------------------------------
(* Lives of elements of every class: how it starts, then up to Steps        *)
(* assignments and removals of neighbouring attributes.                     *)
EXTENDS Views
CONSTANTS Base, Steps, Reach
VARIABLES vnode, vstart, vops
vars == <<vnode, vstart, vops>>
Classes == DOMAIN ClassTab \ {"Package"}
Starts(c) == {Bare(c, Base), Small(c, Base + 1), Close(Full(c, Base + 2, 1)), Close(Full(c, Base + 3, 0))}
(* properties with one variant or two, of any policy each *)
Policies == <<"", "QUEUED", "STANDARD">>
Variant(p) == LET e == Empty("SwDataDefPropsConditional") IN
              IF p = "" THEN SetF(e, IdxOf(e.c, "display_format"), <<Atom("=text", "%d", "")>>)
              ELSE SetF(e, IdxOf(e.c, "impl_policy"), <<Atom("=enum", p, "")>>)
PropsOf(ps) == LET e == Empty("SwDataDefProps") IN SetF(e, IdxOf(e.c, "variants"), [i \in 1..Len(ps) |-> Variant(ps[i])])
Mixtures == [i \in 1..3 |-> <<PropsOf(<<Policies[i]>>)>>]
            \o [k \in 1..9 |-> <<PropsOf(<<Policies[((k - 1) \div 3) + 1], Policies[((k - 1) % 3) + 1]>>)>>]
Tried(c, i) == Values(Fields(c)[i], Next1(Base, i), 0) \o (IF c = "VariableDataPrototype" /\ Fields(c)[i].a = "sw_data_def_props" THEN Mixtures ELSE <<>>)
ASSUME TLCSet(1, TLCEval([c \in Classes |-> TLCEval([i \in 1..Len(Fields(c)) |-> TLCEval(Tried(c, i))])]))
(* every kind of value of the attributes that views depend on, else the first and last *)
Telling == {"content", "impl_policy", "sw_data_def_props", "variants", "parts", "inner_port", "port_ref"}
Picks(c, i) == LET vs == TLCGet(1)[c][i] IN IF c = "EmphasisText" THEN {1} ELSE IF Fields(c)[i].a \in Telling THEN 1..Len(vs) ELSE {1, Len(vs)}
Init == \E c \in Classes : \E n \in Starts(c) : vnode = n /\ vstart = n /\ vops = <<>>
Near(i) == IF vops = <<>> THEN TRUE ELSE LET j == vops[Len(vops)].i IN i >= j /\ i <= j + Reach
DoPut(i) == /\ CanPut(Fields(vnode.c)[i])
            /\ \E k \in Picks(vnode.c, i) : LET v == TLCGet(1)[vnode.c][i][k] IN
                  /\ v # vnode.f[i]
                  /\ vnode' = Put(vnode, i, v)
                  /\ vops' = Append(vops, [i |-> i, v |-> v])
DoDrop(i) == /\ CanDrop(vnode, i)
             /\ vnode' = Drop(vnode, i)
             /\ vops' = Append(vops, [i |-> i, v |-> <<>>])
Next == Len(vops) < Steps /\ UNCHANGED vstart /\ \E i \in 1..Len(vnode.f) : Near(i) /\ (DoPut(i) \/ DoDrop(i))
Spec == Init /\ [][Next]_vars
ASSUME TLCSet(2, TagsOf)
(* the tag it goes by when written on its own and how it is read back: "no" when it is not *)
Tag == IF vnode.c \in NoText THEN "" ELSE TLCGet(2)[vnode.c][1]
How == IF vnode.c \in NoText \/ ~EnumOk(vnode, 51) THEN "no" ELSE Reads(vnode.c, Tag)
EmitLife == Emit([c |-> vnode.c, s |-> vstart, ops |-> vops, w |-> ViewTree(vnode), n |-> vnode, tag |-> Tag, asked |-> Yes(vnode.c \in Asked), how |-> How])
(* what an element tells does not depend on how it came to hold what it holds; an element that is void writes nothing *)
Bland == Void(vnode) => Ser(vnode, "X", 51) = <<"<X", "/">>
EmitFields == \A c \in Classes : Emit([c |-> c, fields |-> Fields(c)])
ASSUME EmitFields
=============================================================================
