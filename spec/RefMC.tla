-------------------------------- MODULE RefMC --------------------------------
(* Typed references: which destination kinds a reference type takes, what   *)
(* storing a reference in a reference-valued attribute does, and the        *)
(* reference every attached element has of its own.                         *)
EXTENDS ArxmlSchema
(* the destination kind of each element, and the type of its own reference *)
Own(c, r, d) == [c |-> c, r |-> r, d |-> d]
OwnEvent(c, d) == Own(c, "RteEventRef", d)
OwnRefs == <<
  Own("CompuMethod", "CompuMethodRef", "COMPU_METHOD"), Own("DataConstraint", "DataConstraintRef", "DATA_CONSTR"),
  Own("Unit", "UnitRef", "UNIT"), Own("SwBaseType", "SwBaseTypeRef", "SW_BASE_TYPE"),
  Own("ImplementationDataTypeElement", "AbstractImplementationDataTypeElementRef", "IMPLEMENTATION_DATA_TYPE_ELEMENT"),
  Own("ImplementationDataType", "ImplementationDataTypeRef", "IMPLEMENTATION_DATA_TYPE"),
  Own("VariableDataPrototype", "VariableDataPrototypeRef", "VARIABLE_DATA_PROTOTYPE"),
  Own("ParameterDataPrototype", "ParameterDataPrototypeRef", "PARAMETER_DATA_PROTOTYPE"),
  Own("ArgumentDataPrototype", "ArgumentDataPrototypeRef", "ARGUMENT_DATA_PROTOTYPE"),
  Own("ApplicationPrimitiveDataType", "ApplicationDataTypeRef", "APPLICATION_PRIMITIVE_DATA_TYPE"),
  Own("ApplicationArrayElement", "ApplicationArrayElementRef", "APPLICATION_ARRAY_ELEMENT"),
  Own("ApplicationArrayDataType", "ApplicationDataTypeRef", "APPLICATION_ARRAY_DATA_TYPE"),
  Own("ApplicationRecordElement", "ApplicationRecordElementRef", "APPLICATION_RECORD_ELEMENT"),
  Own("ApplicationRecordDataType", "ApplicationDataTypeRef", "APPLICATION_RECORD_DATA_TYPE"),
  Own("DataTypeMappingSet", "DataTypeMappingSetRef", "DATA_TYPE_MAPPING_SET"),
  Own("SwAddrMethod", "SwAddrMethodRef", "SW_ADDR_METHOD"), Own("ConstantSpecification", "ConstantRef", "CONSTANT_SPECIFICATION"),
  Own("Package", "PackageRef", "AR_PACKAGE"), Own("ModeDeclaration", "ModeDeclarationRef", "MODE_DECLARATION"),
  Own("ModeDeclarationGroup", "ModeDeclarationGroupRef", "MODE_DECLARATION_GROUP"),
  Own("ModeDeclarationGroupPrototype", "ModeDeclarationGroupPrototypeRef", "MODE_DECLARATION_GROUP_PROTOTYPE"),
  Own("SenderReceiverInterface", "PortInterfaceRef", "SENDER_RECEIVER_INTERFACE"),
  Own("NvDataInterface", "PortInterfaceRef", "NV_DATA_INTERFACE"), Own("ParameterInterface", "PortInterfaceRef", "PARAMETER_INTERFACE"),
  Own("ApplicationError", "ApplicationErrorRef", "APPLICATION_ERROR"),
  Own("ClientServerOperation", "ClientServerOperationRef", "CLIENT_SERVER_OPERATION"),
  Own("ClientServerInterface", "PortInterfaceRef", "CLIENT_SERVER_INTERFACE"),
  Own("ModeSwitchInterface", "PortInterfaceRef", "MODE_SWITCH_INTERFACE"),
  Own("E2EProfileCompatibilityProps", "E2EProfileCompatibilityPropsRef", "E2E_PROFILE_COMPATIBILITY_PROPS"),
  Own("ProvidePortPrototype", "PortPrototypeRef", "P_PORT_PROTOTYPE"), Own("RequirePortPrototype", "PortPrototypeRef", "R_PORT_PROTOTYPE"),
  Own("PRPortPrototype", "PortPrototypeRef", "PR_PORT_PROTOTYPE"),
  Own("ApplicationSoftwareComponentType", "SwComponentTypeRef", "APPLICATION_SW_COMPONENT_TYPE"),
  Own("SwComponentPrototype", "SwComponentPrototypeRef", "SW_COMPONENT_PROTOTYPE"),
  Own("CompositionSwComponentType", "SwComponentTypeRef", "COMPOSITION_SW_COMPONENT_TYPE"),
  Own("VariableAccess", "VariableAccessRef", "VARIABLE_ACCESS"), Own("SwcImplementation", "SwcImplementationRef", "SWC_IMPLEMENTATION"),
  Own("AsynchronousServerCallPoint", "AsynchronousServerCallPointRef", "ASYNCHRONOUS_SERVER_CALL_POINT"),
  Own("AsynchronousServerCallResultPoint", "AsynchronousServerCallResultPointRef", "ASYNCHRONOUS_SERVER_CALL_RESULT_POINT"),
  Own("ModeSwitchPoint", "ModeSwitchPointRef", "MODE_SWITCH_POINT"), Own("RunnableEntity", "RunnableEntityRef", "RUNNABLE_ENTITY"),
  OwnEvent("AsynchronousServerCallReturnsEvent", "ASYNCHRONOUS_SERVER_CALL_RETURNS_EVENT"), OwnEvent("BackgroundEvent", "BACKGROUND_EVENT"),
  OwnEvent("DataReceiveErrorEvent", "DATA_RECEIVE_ERROR_EVENT"), OwnEvent("DataReceivedEvent", "DATA_RECEIVED_EVENT"),
  OwnEvent("DataSendCompletedEvent", "DATA_SEND_COMPLETED_EVENT"), OwnEvent("DataWriteCompletedEvent", "DATA_WRITE_COMPLETED_EVENT"),
  OwnEvent("ExternalTriggerOccurredEvent", "EXTERNAL_TRIGGER_OCCURRED_EVENT"), OwnEvent("InitEvent", "INIT_EVENT"),
  OwnEvent("InternalTriggerOccurredEvent", "INTERNAL_TRIGGER_OCCURRED_EVENT"), OwnEvent("ModeSwitchedAckEvent", "MODE_SWITCHED_ACK_EVENT"),
  OwnEvent("OperationInvokedEvent", "OPERATION_INVOKED_EVENT"), OwnEvent("SwcModeManagerErrorEvent", "SWC_MODE_MANAGER_ERROR_EVENT"),
  OwnEvent("SwcModeSwitchEvent", "SWC_MODE_SWITCH_EVENT"), OwnEvent("TimingEvent", "TIMING_EVENT"),
  OwnEvent("TransformerHardErrorEvent", "TRANSFORMER_HARD_ERROR_EVENT"), Own("ExclusiveArea", "ExclusiveAreaRef", "EXCLUSIVE_AREA"),
  Own("SwcInternalBehavior", "SwcInternalBehaviorRef", "SWC_INTERNAL_BEHAVIOR") >>

Kinds == {EnumTab.IdentifiableSubTypes[i].n : i \in 1..Len(EnumTab.IdentifiableSubTypes)}
(* (types ending in _P or _R are narrowed for one port side; they are no types of their own) *)
RefTypes == {r \in DOMAIN RefTab : SubSeq(r, Len(r) - 1, Len(r)) \notin {"_P", "_R"}}
Takes(r, d) == \E i \in 1..Len(RefTab[r]) : RefTab[r][i] = d
(* constructing a reference: the destination it gets, "err" when refused *)
Make(r, d) == IF d = "" THEN (IF Len(RefTab[r]) = 1 THEN RefTab[r][1] ELSE "err") ELSE IF Takes(r, d) THEN d ELSE "err"
(* reading a reference: what its DEST attribute makes of it; "=none" when there is no such attribute *)
TextOf(d) == LET t == EnumTab.IdentifiableSubTypes IN t[First(t, LAMBDA x : x.n = d)].t
NoDest == <<"=none", "", "NO-SUCH", "unit", "COMPU_METHOD", "VARIABLE-DATA-PROTOTYPE-REF", "Argument-Data-Prototype">>
DestTexts == Map(EnumTab.IdentifiableSubTypes, LAMBDA x : x.t) \o NoDest
(* texts near the ones a reference may have *)
Near(r) == SelectSeq(Flat(Map(SubSeq(RefTab[r], 1, IF Len(RefTab[r]) < 3 THEN Len(RefTab[r]) ELSE 3),
                              LAMBDA d : LET t == TextOf(d) IN <<t \o "-GROUP", t \o "S", "X-" \o t, SubSeq(t, 1, Len(t) - 1), t \o t>>)),
                     LAMBDA t : t \notin Elems(TLCGet(4)))
ReadAs(r, t) == LET d == {x \in Elems(RefTab[r]) : TextOf(x) = t} IN IF d = {} THEN "err" ELSE CHOOSE x \in d : TRUE
(* storing a value in an attribute of reference type r: a path (r2 = "") or a reference of type r2 to a d.          *)
(* keep: stored exactly; err: refused; may: one of the two                                                         *)
(* com specs talk about data elements only, although the schema lets the reference be of any data prototype *)
IsOwn(r2, d) == r2 \notin {"ArgumentDataPrototypeRef", "ParameterDataPrototypeRef"} /\ \E i \in 1..Len(OwnRefs) : OwnRefs[i].r = r2 /\ OwnRefs[i].d = d
Store(r, r2, d) == IF r2 = "" THEN (IF Len(RefTab[r]) = 1 THEN "may" ELSE "err")
                   ELSE IF ~Takes(r, d) THEN "err"
                   ELSE IF r2 = r \/ IsOwn(r2, d) THEN "keep" ELSE "may"
Forms == << [r |-> "", d |-> ""] >> \o Flat([i \in 1..Len(SetToSeq(RefTypes)) |->
            LET r == SetToSeq(RefTypes)[i] IN [j \in 1..Len(RefTab[r]) |-> [r |-> r, d |-> RefTab[r][j]]]])

VARIABLES vwhat, vname
vars == <<vwhat, vname>>
(* the first attribute that can hold an element is where it is placed; a com-spec only refers to its variable access *)
OwnHosts == [Hosts EXCEPT !["VariableAccess"] =
               <<"RunnableEntity", First(Fields("RunnableEntity"), LAMBDA f : f.a = "data_read_access")>>]
ASSUME TLCSet(2, TLCEval(OwnHosts))
ASSUME TLCSet(3, Forms)
ASSUME TLCSet(4, TLCEval(DestTexts))
RefAttrs(c) == SelectSeq([i \in 1..Len(Fields(c)) |-> i], LAMBDA i : Fields(c)[i].k = "ref")
Init == \/ vwhat = "type" /\ vname \in RefTypes
        \/ vwhat = "attrs" /\ vname \in {c \in DOMAIN ClassTab : RefAttrs(c) # <<>>}
        \/ vwhat = "own" /\ vname \in {OwnRefs[i].c : i \in 1..Len(OwnRefs)}
Spec == Init /\ [][UNCHANGED vars]_vars
(* the tables fit together *)
TablesOk == /\ \A r \in RefTypes : Distinct(RefTab[r]) /\ Elems(RefTab[r]) \subseteq Kinds
            /\ Distinct(DestTexts)
            /\ \A i \in 1..Len(OwnRefs) : Takes(OwnRefs[i].r, OwnRefs[i].d)
            /\ Distinct([i \in 1..Len(OwnRefs) |-> OwnRefs[i].c])
ASSUME TablesOk
(* where an embedded element sits: attribute names from the root down, and its path *)
RECURSIVE Chain(_, _)
Chain(c, acc) == LET h == TLCGet(2)[c] IN IF h = <<>> THEN acc ELSE Chain(h[1], <<Fields(h[1])[h[2]].a>> \o acc)
RECURSIVE Names(_, _)
Names(n, ch) == (IF IdxOf(n.c, "name") = 0 THEN <<>> ELSE <<ValOf(n, "name")[1].x>>)
                \o (IF ch = <<>> THEN <<>> ELSE Names(ValOf(n, ch[1])[1], Tail(ch)))
EmitCase ==
  CASE vwhat = "type" ->
       Emit([w |-> "type", r |-> vname, default |-> Make(vname, ""), ok |-> RefTab[vname], read |-> Map(TLCGet(4) \o Near(vname), LAMBDA t : <<t, ReadAs(vname, t)>>),
             store |-> [i \in 1..Len(TLCGet(3)) |-> <<TLCGet(3)[i].r, TLCGet(3)[i].d, Store(vname, TLCGet(3)[i].r, TLCGet(3)[i].d)>>]])
    [] vwhat = "attrs" ->
       Emit([w |-> "attrs", c |-> vname, n |-> Bare(vname, 3), ix |-> RefAttrs(vname)])
    [] OTHER ->
       LET r == Named(Embed(Bare(vname, 3), 5, TLCGet(2)), "Root")
           o == OwnRefs[First(OwnRefs, LAMBDA x : x.c = vname)]
           ch == Chain(vname, <<>>)
       IN Emit([w |-> "own", c |-> vname, n |-> r, chain |-> ch, r |-> o.r, d |-> o.d,
                path |-> "/Elements/" \o Join(Names(r, ch), "/")])
=============================================================================
