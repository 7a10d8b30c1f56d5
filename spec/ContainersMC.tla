----------------------------- MODULE ContainersMC -----------------------------
(* All histories of one construction and up to Depth additions, per owner    *)
EXTENDS Containers
CONSTANTS Depth, Wide   \* Wide: every kind in every step; otherwise later steps take two kinds per slot
VARIABLES st, hist
vars == <<st, hist>>
SeenAs == <<st, Len(hist)>>
Init == hist = <<>> /\ \E c \in Owners : st = ConInit(c)
Do(op) == LET r == Step(st, op) IN
          /\ st' = r.st
          /\ hist' = Append(hist, op)
          /\ Emit([c |-> st.of, h |-> hist', r |-> r.res, p |-> Proj(r.st)])
(* names that begin, end or differ in case like others *)
NameAt(i) == <<"Ite", "item", "Item1", "Item2">>[i]
New == hist = <<>> /\
  \/ Do([op |-> "new", a |-> "", shape |-> "none", kinds |-> <<>>, names |-> <<>>])
  \/ \E a \in Attrs(st.of) :
       \/ a # "sub_elements" /\ \E k \in KindsOf(st.of, a) \cup (Strangers \ ({"=none", "=list"} \cup TextsToo(st.of, a))) :   \* sub_elements: always a list
            Do([op |-> "new", a |-> a, shape |-> "one", kinds |-> <<k>>, names |-> <<"Item">>])
       \/ ~Single(st.of, a) /\ \E k1, k2 \in KindsOf(st.of, a) \cup {"Unit"} :
            /\ k1 = "Unit" => k2 # "Unit"
            /\ Do([op |-> "new", a |-> a, shape |-> "list", kinds |-> <<k1, k2>>, names |-> <<"Item", "Items">>])
AppendItem == hist # <<>> /\ st.cls # "" /\ Len(hist) <= Depth /\
  \E a \in Attrs(st.of) : SlotOf(st.of, a).app # "" /\
    \E k \in KindsOf(st.of, a) \cup (IF Len(hist) = 1 \/ Wide THEN Strangers ELSE {"=int"}) :
      \/ Do([op |-> "append", m |-> SlotOf(st.of, a).app, kind |-> k, n |-> NameAt(Len(hist)), was |-> "new"])
      (* the item has had another owner before *)
      \/ /\ IsNamed(k) /\ k \in KindsOf(st.of, a) /\ (Wide \/ Len(hist) = 1)
         /\ Do([op |-> "append", m |-> SlotOf(st.of, a).app, kind |-> k, n |-> NameAt(Len(hist)), was |-> "owned"])
Create == hist # <<>> /\ st.cls # "" /\ Len(hist) <= Depth /\
  \E i \in 1..Len(Slots[st.of]) : Slots[st.of][i].cre # "" /\
      Do([op |-> "create", a |-> Slots[st.of][i].a, m |-> Slots[st.of][i].cre, n |-> NameAt(Len(hist))])
(* equal items (and equal references) one after the other: each counts *)
AppendAgain == hist # <<>> /\ st.cls # "" /\ Len(hist) <= 4 /\
  \E a \in Attrs(st.of) :
    /\ SlotOf(st.of, a).app # "" /\ \A b \in Attrs(st.of) \ {a} : st.slots[b] = <<>>
    /\ Elems(st.slots[a]) \subseteq {"Twin", "twin"}
    /\ \E k \in KindsOf(st.of, a) : ~IsNamed(k) /\ (Wide \/ Len(hist) = 1 \/ k = CHOOSE x \in KindsOf(st.of, a) : ~IsNamed(x)) /\
         \E n \in {"Twin", "twin"} : Do([op |-> "append", m |-> SlotOf(st.of, a).app, kind |-> k, n |-> n, was |-> "twin"])
Next == New \/ AppendItem \/ Create \/ AppendAgain
Spec == Init /\ [][Next]_vars
InOrder == [][st.cls # "" => Grown(st, st')]_vars
(* every named item of an owner is in exactly one place *)
OnePlace == st.cls # "" => \A a, b \in DOMAIN st.slots : a # b => Elems(st.slots[a]) \cap Elems(st.slots[b]) = {}
(* the kinds of item: emitted once, so that the harness can build them *)
Kinds == UNION {UNION {{k \in KindsOf(c, a) : IsClass(k)} : a \in Attrs(c)} : c \in Owners} \cup {k \in Strangers : IsClass(k)}
EmitKinds == hist = <<>> =>
  Emit([w |-> "owner", o |-> st.of, n |-> IF IsNamed(st.of) THEN Named(Bare(st.of, 3), "Owner") ELSE Bare(st.of, 3),
        slots |-> [i \in 1..Cardinality(Attrs(st.of)) |->
                     LET a == SetToSeq(Attrs(st.of))[i] IN
                     [a |-> a, held |-> IF IsRefs(st.of, a) THEN RefSlot(st.of, a).held ELSE "", find |-> SlotOf(st.of, a).find, titled |-> Bool(Titled(st.of, a)), named |-> Bool(\E k \in KindsOf(st.of, a) : IsNamed(k))]]])
EmitItems == (hist = <<>> /\ st.of = "Code") =>
  \A k \in Kinds : \A v \in 0..3 :     \* four of each: with the required attributes only, and with all attributes
     Emit([w |-> "kind", k |-> k, v |-> v, n |-> IF v = 0 THEN Bare(k, 3) ELSE Full(k, Next1(v, v), 0), named |-> Bool(IsNamed(k))])
=============================================================================
