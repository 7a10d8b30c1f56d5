-------------------------------- MODULE Views --------------------------------
(* What an element tells about itself follows from what it holds, at any    *)
(* time of its life.  An element is a node of ArxmlSchema; a life is a      *)
(* sequence of assignments to its attributes (Put) and removals (Drop).     *)
(*   Views(n)     the answers of the element: question and answer           *)
(*   ViewTree(n)  those of the element and of all elements in it            *)
EXTENDS Alone

Yes(b) == IF b THEN "yes" ELSE "no"
Q(q, a) == [q |-> q, a |-> a]
Has(c, a) == IdxOf(c, a) > 0
Held(n, a) == IF Has(n.c, a) THEN ValOf(n, a) ELSE <<>>
(* nothing but interval types (or the format of a pattern), which are never unset, is held *)
Void(n) == \A i \in 1..Len(n.f) : Fields(n.c)[i].k = "ltype" \/ n.f[i] = <<>>
(* of the classes with interval types only the constraints leave them out of account *)
Tells(n) == \/ n.c \in {"InternalConstraint", "PhysicalConstraint"}
            \/ ~Void(n)
            \/ n.c # "NotAvailableValueSpecification" /\ \A i \in 1..Len(Fields(n.c)) : Fields(n.c)[i].k # "ltype"
ProvideDest == {"ABSTRACT_PROVIDED_PORT_PROTOTYPE", "P_PORT_PROTOTYPE", "PR_PORT_PROTOTYPE"}
RequireDest == {"ABSTRACT_REQUIRED_PORT_PROTOTYPE", "R_PORT_PROTOTYPE", "PR_PORT_PROTOTYPE"}
QueuedProps(n) == Held(n, "impl_policy") # <<>> /\ Held(n, "impl_policy")[1].x = "QUEUED"
(* the first variant of the data definition properties counts *)
QueuedProto(n) == LET p == Held(n, "sw_data_def_props") IN
                  p # <<>> /\ Held(p[1], "variants") # <<>> /\ QueuedProps(Held(p[1], "variants")[1])
ContentKind(n) == LET v == Held(n, "content") IN
                  IF v = <<>> THEN "NONE" ELSE IF v[1].c = "CompuConst" THEN "CONSTANT" ELSE "RATIONAL"
CompositeTypes == {"ApplicationArrayDataType", "ApplicationRecordDataType"}
PrimitiveTypes == {"ApplicationPrimitiveDataType"}
RECURSIVE Joined(_)
Joined(ss) == IF ss = <<>> THEN "" ELSE ss[1] \o Joined(Tail(ss))
(* a unit name as plain text: superscripts are raised by ^, subscripts cannot be told *)
UnitText(ps) == IF \E i \in 1..Len(ps) : ps[i].c \notin {"=text", "Superscript"} THEN "?"
                ELSE Joined([i \in 1..Len(ps) |-> IF ps[i].c = "=text" THEN ps[i].x ELSE "^" \o ValOf(ps[i], "text")[1].x])
Inner(n) == LET p == Held(n, "inner_port") IN
            IF p = <<>> \/ Held(p[1], "port_ref") = <<>> THEN "none"
            ELSE LET d == Held(p[1], "port_ref")[1].d IN
                 IF d \in ProvideDest THEN "P-PORT-IN-COMPOSITION-INSTANCE-REF"
                 ELSE IF d \in RequireDest THEN "R-PORT-IN-COMPOSITION-INSTANCE-REF" ELSE "none"
RefViews(v, cls) == <<Q("text", v.x), Q("dest", v.d)>> \o
  (IF cls \in {"PortPrototypeRef", "PortPrototypeRef_P", "PortPrototypeRef_R"} THEN <<Q("provide", Yes(v.d \in ProvideDest)), Q("require", Yes(v.d \in RequireDest))>> ELSE <<>>)
Views(n) ==
  IF SubSeq(n.c, 1, 1) = "=" THEN <<>>
  ELSE (IF Tells(n) THEN <<Q("empty", Yes(Void(n)))>> ELSE <<>>)
       \o (IF Held(n, "name") # <<>> THEN <<Q("short name", Held(n, "name")[1].x)>> ELSE <<>>)
       \o (IF n.c = "SwDataDefPropsConditional" THEN <<Q("queued", Yes(QueuedProps(n)))>> ELSE <<>>)
       \o (IF n.c = "VariableDataPrototype" THEN <<Q("queued", Yes(QueuedProto(n)))>> ELSE <<>>)
       \o (IF n.c \in CompositeTypes \cup PrimitiveTypes THEN <<Q("composite", Yes(n.c \in CompositeTypes))>> ELSE <<>>)
       \o (IF n.c = "CompuScale" THEN <<Q("content", ContentKind(n))>> ELSE <<>>)
       \o (IF n.c = "SingleLanguageUnitNames" /\ UnitText(Held(n, "parts")) # "?" THEN <<Q("text", UnitText(Held(n, "parts")))>> ELSE <<>>)
       \o (IF n.c = "Superscript" THEN <<Q("text", "^" \o ValOf(n, "text")[1].x)>> ELSE <<>>)
       \o (IF n.c = "SwDataDefProps" THEN <<Q("length", Str(Len(Held(n, "variants"))))>> ELSE <<>>)
       \o (IF n.c = "DelegationSwConnector" /\ Held(n, "inner_port") # <<>> THEN <<Q("inner tag", Inner(n))>> ELSE <<>>)
RECURSIVE ViewTree(_)
ViewTree(n) == [q |-> Views(n), f |-> [i \in 1..Len(n.f) |-> [j \in 1..Len(n.f[i]) |->
                  IF n.f[i][j].c = "=ref" THEN [q |-> RefViews(n.f[i][j], Fields(n.c)[i].x), f |-> <<>>] ELSE ViewTree(n.f[i][j])]]]

-----------------------------------------------------------------------------
(* life of an element *)
CanPut(fl) == fl.k # "ltype"
CanDrop(n, i) == LET fl == Fields(n.c)[i] IN
                 ~IsReq(fl) /\ fl.k # "ltype" /\ n.f[i] # <<>>
Put(n, i, vs) == SetF(n, i, vs)
Drop(n, i) == SetF(n, i, <<>>)
=============================================================================
