------------------------------ MODULE Containers ------------------------------
(* Which element holds which sub-elements: every list (and single place) of  *)
(* the library that can be extended after construction, and what a           *)
(* constructor, an append or a create call does to it.                       *)
(*                                                                           *)
(* State: the owner's class and, for each of its slots, the names of the     *)
(* items it holds, in order.  Operations:                                    *)
(*   new     constructor with items for one slot (shape one/list/none)       *)
(*   append  give an item of some kind to the slot's append method           *)
(*   create  create an item through the owner (returns it)                   *)
(* An item of a wrong kind is refused and changes nothing.                   *)
EXTENDS ArxmlSchema

Slot(a, app, cre, find) == [a |-> a, app |-> app, cre |-> cre, find |-> find]
L(a, app) == Slot(a, app, "", "")
F(a, app) == Slot(a, app, "", "find")
FC(a, app, cre) == Slot(a, app, cre, "find")
LC(a, app, cre) == Slot(a, app, cre, "")
Events == << L("disabled_modes", "append_disabled_mode") >>
(* slots of references: what may be given, and the class that is held *)
R(a, app, cre, kinds, held) == [a |-> a, app |-> app, cre |-> cre, find |-> "", kinds |-> kinds, held |-> held, texts |-> "="]
(* the constructor takes one text also (judged by C28) *)
T(r) == [r EXCEPT !.texts = "=text"]
Areas == {"@ExclusiveAreaRef", "@ExclusiveAreaRefConditional", "=text"}
RefSlots ==
  [ ClientServerOperation |-> << T(R("possible_error_refs", "append_possible_error_ref", "create_possible_error_ref", {"@ApplicationErrorRef"}, "ApplicationErrorRef")) >>,
    RunnableEntity |-> << R("can_enter_leave", "append_can_enter_leave", "", Areas, "ExclusiveAreaRefConditional"),
        R("runs_insides", "append_runs_insides", "", Areas, "ExclusiveAreaRefConditional"),
        R("exclusive_area_nesting_order", "append_exclusive_area_nesting_order", "", {"@ExclusiveAreaNestingOrderRef"}, "ExclusiveAreaNestingOrderRef") >>,
    SwcInternalBehavior |-> << T(R("data_type_mappings", "append_data_type_mapping", "", {"@DataTypeMappingSetRef"}, "DataTypeMappingSetRef")) >>,
    ArVariableInImplementationDataInstanceRef |-> << R("context_data_prototype_refs", "append_context_data_protype_ref", "",
        {"@AbstractImplementationDataTypeElementRef"}, "AbstractImplementationDataTypeElementRef") >>,
    VariableInAtomicSWCTypeInstanceRef |-> << R("context_data_prototype_refs", "append_context_data_protype_ref", "",
        {"@ApplicationCompositeElementDataPrototypeRef", "@ApplicationArrayElementRef", "@ApplicationRecordElementRef"},
        "ApplicationCompositeElementDataPrototypeRef") >> ]
ElementSlots ==
  [ Code |-> << L("artifact_descriptors", "append_artifact_descriptor") >>,
    SwcImplementation |-> << L("code_descriptors", "append_code_descriptor") >>,
    ImplementationDataType |-> << F("sub_elements", "append") >>,
    ImplementationDataTypeElement |-> << F("sub_elements", "append") >>,
    ApplicationArrayDataType |-> << L("element", "") >>,
    ApplicationRecordDataType |-> << L("elements", "append") >>,
    DataTypeMappingSet |-> << L("data_type_maps", "append") >>,
    ModeDeclarationGroup |-> << FC("mode_declarations", "append_mode_declaratation", "create_mode_declaration"),
                                F("mode_transitions", "append_mode_transition") >>,
    SenderReceiverInterface |-> << LC("data_elements", "append_data_element", "create_data_element"),
                                   L("invalidation_policies", "append_invalidation_policy") >>,
    NvDataInterface |-> << LC("data_elements", "append_data_element", "create_data_element") >>,
    ParameterInterface |-> << LC("parameters", "append_parameter", "create_parameter") >>,
    ClientServerOperation |-> << LC("arguments", "append_argument", "create_argument"),
                                 LC("arguments", "append_argument", "create_in_argument"),
                                 LC("arguments", "append_argument", "create_out_argument"),
                                 LC("arguments", "append_argument", "create_inout_argument") >>,
    ClientServerInterface |-> << LC("operations", "append_operation", "create_operation"),
                                 LC("possible_errors", "append_possible_errors", "create_possible_error") >>,
    ModeSwitchInterface |-> << LC("mode_group", "", "create_mode_group") >>,
    ProvidePortPrototype |-> << L("com_spec", "append_com_spec") >>,
    RequirePortPrototype |-> << L("com_spec", "append_com_spec") >>,
    PRPortPrototype |-> << L("provided_com_spec", "append_com_spec"), L("required_com_spec", "append_com_spec") >>,
    ClientComSpec |-> << L("transformation_com_spec_props", "append_transformation_com_spec_props") >>,
    ServerComSpec |-> << L("transformation_com_spec_props", "append_transformation_com_spec_props") >>,
    QueuedReceiverComSpec |-> << L("transformation_com_spec_props", "append_transformation_com_spec_props") >>,
    NonqueuedReceiverComSpec |-> << L("transformation_com_spec_props", "append_transformation_com_spec_props") >>,
    ApplicationSoftwareComponentType |-> << F("ports", "append_port"), LC("internal_behavior", "", "create_internal_behavior") >>,
    CompositionSwComponentType |-> << F("components", "append_component"), F("connectors", "append_connector"), F("ports", "append_port") >>,
    SwcInternalBehavior |-> << LC("exclusive_areas", "append_exclusive_area", "create_exclusive_area"), L("events", "append_event"),
                               Slot("runnables", "append_runnable", "create_runnable", "find_runnable") >>,
    RunnableEntity |-> << L("argument", "append_argument"), L("async_server_call_result_point", "append_async_server_call_result_point"),
       L("data_read_access", "append_data_read_access"), L("data_receive_point_by_argument", "append_data_receive_point_by_argument"),
       L("data_receive_point_by_value", "append_data_receive_point_by_value"), L("data_send_point", "append_data_send_point"),
       L("data_write_access", "append_data_write_access"), L("external_triggering_point", "append_external_triggering_point"),
       L("internal_triggering_point", "append_internal_triggering_point"), L("mode_access_point", "append_mode_access_point"),
       L("mode_switch_point", "append_mode_switch_point"), L("parameter_access", "append_parameter_access"),
       L("read_local_variable", "append_read_local_variable"), L("write_local_variable", "append_write_local_variable"),
       L("server_call_point", "append_server_call_point"), L("wait_point", "append_wait_point"),
       L("activation_reasons", "append_activation_reason") >>,
    TimingEvent |-> Events, DataReceivedEvent |-> Events, SwcModeSwitchEvent |-> Events, OperationInvokedEvent |-> Events,
    PortApiOption |-> << L("port_arg_values", "append_port_arg_value"), L("supported_features", "append_supported_feature") >> ]

Owners == DOMAIN ElementSlots \cup DOMAIN RefSlots
ElementsOf(c) == IF c \in DOMAIN ElementSlots THEN ElementSlots[c] ELSE <<>>
RefsOf(c) == IF c \in DOMAIN RefSlots THEN RefSlots[c] ELSE <<>>
Slots == [c \in Owners |-> ElementsOf(c) \o Map(RefsOf(c), LAMBDA r : Slot(r.a, r.app, r.cre, ""))]
IsRefs(c, a) == \E i \in 1..Len(RefsOf(c)) : RefsOf(c)[i].a = a
RefSlot(c, a) == RefsOf(c)[First(RefsOf(c), LAMBDA r : r.a = a)]
FieldOf(c, a) == Fields(c)[IdxOf(c, a)]
HasField(c, a) == IdxOf(c, a) # 0
KindsOf(c, a) == IF IsRefs(c, a) THEN RefSlot(c, a).kinds ELSE KidsOf(FieldOf(c, a))
TextsToo(c, a) == IF IsRefs(c, a) THEN {RefSlot(c, a).texts} ELSE {}
IsNamed(c) == IsClass(c) /\ HasField(c, "name")
(* things that have no name but an identifier with one *)
Titled(c, a) == \E k \in KindsOf(c, a) : IsClass(k) /\ HasField(k, "ident")
Single(c, a) == FieldOf(c, a).m # "*"
(* the slots of an owner; a slot with several ways of creating is listed once per way *)
Attrs(c) == Elems([i \in 1..Len(Slots[c]) |-> Slots[c][i].a])
SlotOf(c, a) == Slots[c][First(Slots[c], LAMBDA s : s.a = a)]
(* the slots one append method serves *)
Serves(c, app, kind) == {a \in Attrs(c) : SlotOf(c, a).app = app /\ kind \in KindsOf(c, a)}

(* items that are no element at all, or elements that belong elsewhere *)
Strangers == {"Unit", "VariableDataPrototype", "ParameterDataPrototype", "ArgumentDataPrototype", "RunnableEntity", "TimingEvent",
              "ProvidePortPrototype", "VariableAccess", "ParameterAccess", "ServerComSpec", "ClientComSpec", "ModeSwitchPoint",
              "=int", "=text", "=none", "=list", "@UnitRef", "@ExclusiveAreaRef", "@DataTypeMappingSetRef"}

ConInit(c) == [cls |-> "", of |-> c, slots |-> <<>>]
Out(st, res) == [st |-> st, res |-> res]
Put(st, c, a, names) == [st EXCEPT !.slots = [x \in DOMAIN st.slots |->
                          IF x # a THEN st.slots[x] ELSE IF Single(c, a) THEN <<names[Len(names)]>> ELSE st.slots[x] \o names]]
Step(st, op) ==
  LET c == st.of IN
  CASE op.op = "new" ->
         LET s0 == [st EXCEPT !.cls = c, !.slots = [a \in Attrs(c) |-> <<>>]]
             good == \A i \in 1..Len(op.kinds) : op.kinds[i] \in KindsOf(c, op.a)
         IN IF op.shape = "none" THEN Out(s0, "ok")
            ELSE IF ~good THEN Out(st, "err")
            ELSE Out(IF op.kinds = <<>> THEN s0 ELSE Put(s0, c, op.a, op.names), "ok")
    [] op.op = "append" ->
         LET s == Serves(c, op.m, op.kind)
         IN IF s = {} THEN Out(st, "err") ELSE Out(Put(st, c, CHOOSE a \in s : TRUE, <<op.n>>), "ok")
    [] OTHER -> Out(Put(st, c, op.a, <<op.n>>), "new:" \o op.n)   \* create
(* the state as the library shows it: what each slot holds, each item's path below the owner, what the owner finds and does not *)
Near == <<"I", "ite", "ITEM", "Items2", "item ">>
Held(st) == UNION {Elems(st.slots[a]) : a \in Attrs(st.of)}
Missing(st) == Map(SelectSeq(Near, LAMBDA n : n \notin Held(st)), LAMBDA n : "no " \o n)
Proj(st) ==
  IF st.cls = "" THEN <<>> ELSE
  Flat([i \in 1..Len(SetToSeq(Attrs(st.of))) |->
    LET a == SetToSeq(Attrs(st.of))[i]
        s == SlotOf(st.of, a)
        line == a \o ":" \o Join(st.slots[a], ",")
    IN <<line>> \o (IF \E k \in KindsOf(st.of, a) : IsNamed(k)
                    THEN Map(st.slots[a], LAMBDA n : "owner/" \o n) \o
                         (IF s.find = "" THEN <<>> ELSE Map(st.slots[a], LAMBDA n : "found " \o n) \o Missing(st))
                    ELSE IF Titled(st.of, a) THEN Map(st.slots[a], LAMBDA n : "ident owner/" \o n)
                    ELSE <<>>)])
(* what never changes: items only come in at the end of one slot *)
Grown(old, new) == \A a \in DOMAIN old.slots : Single(old.of, a) \/ StartsWith(new.slots[a], old.slots[a])
=============================================================================
