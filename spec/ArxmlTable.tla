----------------------------- MODULE ArxmlTable -----------------------------
(* The ARXML schema of every element the library reads and writes, as data: *)
(* for each class the fields in schema order.  A field says where the value *)
(* of the attribute `a` stands:                                             *)
(*   w   wrapper tag ("" none)                                              *)
(*   t   tag of the value (w/o tag: raw text content; "any": tag of kind)   *)
(*   k   text int num bool enum ref sub any limit ltype                     *)
(*   x   enumeration / reference class / sub class / group of alternatives  *)
(*   m   "1" optional, "r" required, "*" list, "2" list of at most two,     *)
(*       "@" XML attribute, "@r" required XML attribute                     *)
(* Reviewed against the AUTOSAR 4.x schema (groups from base to derived     *)
(* class, alphabetical inside a group unless the schema orders otherwise).  *)
EXTENDS Kit, EnumTable, RefTable

Fld(a, w, t, k, x, m) == [a |-> a, w |-> w, t |-> t, k |-> k, x |-> x, m |-> m]
Txt(a, t)        == Fld(a, "", t, "text", "", "1")
Whole(a, t)        == Fld(a, "", t, "int", "", "1")
Num(a, t)        == Fld(a, "", t, "num", "", "1")
Boo(a, t)        == Fld(a, "", t, "bool", "", "1")
Enu(a, t, x)     == Fld(a, "", t, "enum", x, "1")
Ref(a, t, x)     == Fld(a, "", t, "ref", x, "1")
Sub(a, t, x)     == Fld(a, "", t, "sub", x, "1")
AnyOf(a, w, x)     == Fld(a, w, "any", "any", x, "1")       \* one of a group, inside wrapper w
LTxt(a, w, t)    == Fld(a, w, t, "text", "", "*")
LNum(a, w, t)    == Fld(a, w, t, "num", "", "*")
LRef(a, w, t, x) == Fld(a, w, t, "ref", x, "*")
LSub(a, w, t, x) == Fld(a, w, t, "sub", x, "*")
LAny(a, w, x)    == Fld(a, w, "any", "any", x, "*")
Att(a, t)        == Fld(a, "", t, "text", "", "@")
AttE(a, t, x)    == Fld(a, "", t, "enum", x, "@")
Lim(a, t, x)     == Fld(a, "", t, "limit", x, "1")        \* x: attribute holding the interval type
LTy(a, x)        == Fld(a, "", "", "ltype", x, "1")       \* interval type of limit x
Req(f)           == [f EXCEPT !.m = IF f.m = "@" THEN "@r" ELSE "r"]

-----------------------------------------------------------------------------
(* base groups *)
Referrable == << Req(Txt("name", "SHORT-NAME")) >>
MultiRef == Referrable \o << Sub("long_name", "LONG-NAME", "MultilanguageLongName") >>
Ident == << Att("uuid", "UUID") >> \o MultiRef \o <<
  Sub("desc", "DESC", "MultiLanguageOverviewParagraph"), Txt("category", "CATEGORY"),
  Sub("introduction", "INTRODUCTION", "DocumentationBlock"),
  LSub("annotations", "ANNOTATIONS", "ANNOTATION", "Annotation") >>
Describ == <<
  Sub("desc", "DESC", "MultiLanguageOverviewParagraph"), Txt("category", "CATEGORY"),
  Sub("introduction", "INTRODUCTION", "DocumentationBlock") >>
DataProps == << Sub("sw_data_def_props", "SW-DATA-DEF-PROPS", "SwDataDefProps") >>
Limits == << Lim("lower_limit", "LOWER-LIMIT", "lower_limit_type"),
             Lim("upper_limit", "UPPER-LIMIT", "upper_limit_type"),
             LTy("lower_limit_type", "lower_limit"), LTy("upper_limit_type", "upper_limit") >>
Constrs == Limits \o << LSub("scale_constrs", "SCALE-CONSTRS", "SCALE-CONSTR", "ScaleConstraint"),
             Num("max_gradient", "MAX-GRADIENT"), Num("max_diff", "MAX-DIFF"), Enu("monotony", "MONOTONY", "Monotony") >>
TypedProto == DataProps \o << Ref("type_ref", "TYPE-TREF", "AutosarDataTypeRef") >>
CompElem == DataProps \o << Ref("type_ref", "TYPE-TREF", "ApplicationDataTypeRef") >>
Iface == << Boo("is_service", "IS-SERVICE"), Enu("service_kind", "SERVICE-KIND", "ServiceKind") >>
Label == << Txt("label", "SHORT-LABEL") >>
Lang == << Req(AttE("language", "L", "Language")) >>
View == << Att("semantic_information", "SI"), Att("view", "VIEW") >>
Page == View \o << AttE("page_break", "BREAK", "PageBreak"),
                   AttE("keep_with_previous", "KEEP-WITH-PREVIOUS", "KeepWithPrevious") >>
Sender == <<
  Ref("data_element_ref", "DATA-ELEMENT-REF", "AutosarDataPrototypeRef"),
  Enu("handle_out_of_range", "HANDLE-OUT-OF-RANGE", "HandleOutOfRange"),
  Sub("network_representation", "NETWORK-REPRESENTATION", "SwDataDefProps"),
  Sub("transmission_acknowledge", "TRANSMISSION-ACKNOWLEDGE", "TransmissionAcknowledgementRequest"),
  Sub("tranmsission_props", "TRANSMISSION-PROPS", "TransmissionComSpecProps"),
  Boo("uses_end_to_end_protection", "USES-END-TO-END-PROTECTION") >>
Receiver == <<
  Ref("data_element_ref", "DATA-ELEMENT-REF", "AutosarDataPrototypeRef"),
  Enu("handle_out_of_range", "HANDLE-OUT-OF-RANGE", "HandleOutOfRange"),
  Enu("handle_out_of_range_status", "HANDLE-OUT-OF-RANGE-STATUS", "HandleOutOfRangeStatus"),
  Whole("max_delta_counter_init", "MAX-DELTA-COUNTER-INIT"),
  Whole("max_no_new_repeated_data", "MAX-NO-NEW-OR-REPEATED-DATA"),
  Sub("network_representation", "NETWORK-REPRESENTATION", "SwDataDefProps"),
  Sub("reception_props", "RECEPTION-PROPS", "ReceptionComSpecProps"),
  Sub("replace_with", "REPLACE-WITH", "VariableAccess"),
  Whole("sync_counter_init", "SYNC-COUNTER-INIT"),
  LAny("transformation_com_spec_props", "TRANSFORMATION-COM-SPEC-PROPSS", "TransformProps"),
  Boo("uses_end_to_end_protection", "USES-END-TO-END-PROTECTION") >>
Event == << LSub("disabled_modes", "DISABLED-MODE-IREFS", "DISABLED-MODE-IREF", "RModeInAtomicSwcInstanceRef"),
            Ref("start_on_event", "START-ON-EVENT-REF", "RunnableEntityRef") >>
Access == << Enu("return_value_provision", "RETURN-VALUE-PROVISION", "RteApiReturnValueProvision") >>
CallPoint == << Sub("operation", "OPERATION-IREF", "ROperationInAtomicSwcInstanceRef"), Num("timeout", "TIMEOUT") >>
ProvPort == Ref("context_port", "CONTEXT-P-PORT-REF", "AbstractProvidedPortPrototypeRef")
ReqPort == Ref("context_port", "CONTEXT-R-PORT-REF", "AbstractRequiredPortPrototypeRef")
VarAccess(a, w) == LSub(a, w, "VARIABLE-ACCESS", "VariableAccess")

-----------------------------------------------------------------------------
(* groups of alternatives: class (or atom kind) and its tag *)
Alt(c, t) == [c |-> c, t |-> t]
AltTab == [
  LongNamePart |-> << Alt("=text", ""), Alt("EmphasisText", "E"), Alt("IndexEntry", "IE"), Alt("Subscript", "SUB"),
                      Alt("Superscript", "SUP"), Alt("TechnicalTerm", "TT") >>,
  ParagraphPart |-> << Alt("=text", ""), Alt("Break", "BR"), Alt("EmphasisText", "E"), Alt("IndexEntry", "IE"),
                      Alt("Subscript", "SUB"), Alt("Superscript", "SUP"), Alt("TechnicalTerm", "TT") >>,
  VerbatimPart |-> << Alt("=text", ""), Alt("Break", "BR"), Alt("EmphasisText", "E"), Alt("TechnicalTerm", "TT") >>,
  UnitPart |-> << Alt("=text", ""), Alt("Subscript", "SUB"), Alt("Superscript", "SUP") >>,
  Block |-> << Alt("MultiLanguageParagraph", "P"), Alt("MultiLanguageVerbatim", "VERBATIM") >>,
  ConstValue |-> << Alt("=text", "VT"), Alt("=num", "V") >>,
  ScaleContent |-> << Alt("CompuConst", "COMPU-CONST"), Alt("CompuRational", "COMPU-RATIONAL-COEFFS") >>,
  SwValue |-> << Alt("=num", "V"), Alt("=text", "VT"), Alt("ValueGroup", "VG") >>,
  Value |-> << Alt("TextValueSpecification", "TEXT-VALUE-SPECIFICATION"),
               Alt("NumericalValueSpecification", "NUMERICAL-VALUE-SPECIFICATION"),
               Alt("NotAvailableValueSpecification", "NOT-AVAILABLE-VALUE-SPECIFICATION"),
               Alt("ArrayValueSpecification", "ARRAY-VALUE-SPECIFICATION"),
               Alt("RecordValueSpecification", "RECORD-VALUE-SPECIFICATION"),
               Alt("ApplicationValueSpecification", "APPLICATION-VALUE-SPECIFICATION"),
               Alt("ConstantReference", "CONSTANT-REFERENCE") >>,
  TransformProps |-> << Alt("EndToEndTransformationComSpecProps", "END-TO-END-TRANSFORMATION-COM-SPEC-PROPS") >>,
  ProvidedSpec |-> << Alt("ModeSwitchSenderComSpec", "MODE-SWITCH-SENDER-COM-SPEC"),
               Alt("QueuedSenderComSpec", "QUEUED-SENDER-COM-SPEC"), Alt("NonqueuedSenderComSpec", "NONQUEUED-SENDER-COM-SPEC"),
               Alt("NvProvideComSpec", "NV-PROVIDE-COM-SPEC"), Alt("ParameterProvideComSpec", "PARAMETER-PROVIDE-COM-SPEC"),
               Alt("ServerComSpec", "SERVER-COM-SPEC") >>,
  RequiredSpec |-> << Alt("QueuedReceiverComSpec", "QUEUED-RECEIVER-COM-SPEC"),
               Alt("NonqueuedReceiverComSpec", "NONQUEUED-RECEIVER-COM-SPEC"), Alt("NvRequireComSpec", "NV-REQUIRE-COM-SPEC"),
               Alt("ParameterRequireComSpec", "PARAMETER-REQUIRE-COM-SPEC"),
               Alt("ModeSwitchReceiverComSpec", "MODE-SWITCH-RECEIVER-COM-SPEC"), Alt("ClientComSpec", "CLIENT-COM-SPEC") >>,
  Port |-> << Alt("ProvidePortPrototype", "P-PORT-PROTOTYPE"), Alt("RequirePortPrototype", "R-PORT-PROTOTYPE"),
              Alt("PRPortPrototype", "PR-PORT-PROTOTYPE") >>,
  InnerPort |-> << Alt("PortInCompositionTypeInstanceRef_P", "P-PORT-IN-COMPOSITION-INSTANCE-REF"),
                   Alt("PortInCompositionTypeInstanceRef_R", "R-PORT-IN-COMPOSITION-INSTANCE-REF") >>,
  Connector |-> << Alt("AssemblySwConnector", "ASSEMBLY-SW-CONNECTOR"), Alt("DelegationSwConnector", "DELEGATION-SW-CONNECTOR"),
                   Alt("PassThroughSwConnector", "PASS-THROUGH-SW-CONNECTOR") >>,
  ModeGroup |-> << Alt("PModeGroupInAtomicSwcInstanceRef", "P-MODE-GROUP-IN-ATOMIC-SWC-INSTANCE-REF"),
                   Alt("RModeGroupInAtomicSwcInstanceRef", "R-MODE-GROUP-IN-ATOMIC-SWC-INSTANCE-REF") >>,
  ServerCall |-> << Alt("AsynchronousServerCallPoint", "ASYNCHRONOUS-SERVER-CALL-POINT"),
                    Alt("SynchronousServerCallPoint", "SYNCHRONOUS-SERVER-CALL-POINT") >>,
  Feature |-> << Alt("CommunicationBufferLocking", "COMMUNICATION-BUFFER-LOCKING") >>,
  RteEvent |-> <<
    Alt("AsynchronousServerCallReturnsEvent", "ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT"), Alt("BackgroundEvent", "BACKGROUND-EVENT"),
    Alt("DataReceiveErrorEvent", "DATA-RECEIVE-ERROR-EVENT"), Alt("DataReceivedEvent", "DATA-RECEIVED-EVENT"),
    Alt("DataSendCompletedEvent", "DATA-SEND-COMPLETED-EVENT"), Alt("DataWriteCompletedEvent", "DATA-WRITE-COMPLETED-EVENT"),
    Alt("ExternalTriggerOccurredEvent", "EXTERNAL-TRIGGER-OCCURRED-EVENT"), Alt("InitEvent", "INIT-EVENT"),
    Alt("InternalTriggerOccurredEvent", "INTERNAL-TRIGGER-OCCURRED-EVENT"), Alt("ModeSwitchedAckEvent", "MODE-SWITCHED-ACK-EVENT"),
    Alt("OperationInvokedEvent", "OPERATION-INVOKED-EVENT"), Alt("SwcModeManagerErrorEvent", "SWC-MODE-MANAGER-ERROR-EVENT"),
    Alt("SwcModeSwitchEvent", "SWC-MODE-SWITCH-EVENT"), Alt("TimingEvent", "TIMING-EVENT"),
    Alt("TransformerHardErrorEvent", "TRANSFORMER-HARD-ERROR-EVENT") >>,
  Root |-> <<
    Alt("CompuMethod", "COMPU-METHOD"), Alt("DataConstraint", "DATA-CONSTR"), Alt("Unit", "UNIT"),
    Alt("SwBaseType", "SW-BASE-TYPE"), Alt("SwAddrMethod", "SW-ADDR-METHOD"),
    Alt("ImplementationDataType", "IMPLEMENTATION-DATA-TYPE"),
    Alt("ApplicationPrimitiveDataType", "APPLICATION-PRIMITIVE-DATA-TYPE"),
    Alt("ApplicationArrayDataType", "APPLICATION-ARRAY-DATA-TYPE"),
    Alt("ApplicationRecordDataType", "APPLICATION-RECORD-DATA-TYPE"),
    Alt("DataTypeMappingSet", "DATA-TYPE-MAPPING-SET"), Alt("ConstantSpecification", "CONSTANT-SPECIFICATION"),
    Alt("ModeDeclarationGroup", "MODE-DECLARATION-GROUP"), Alt("SenderReceiverInterface", "SENDER-RECEIVER-INTERFACE"),
    Alt("NvDataInterface", "NV-DATA-INTERFACE"), Alt("ParameterInterface", "PARAMETER-INTERFACE"),
    Alt("ClientServerInterface", "CLIENT-SERVER-INTERFACE"), Alt("ModeSwitchInterface", "MODE-SWITCH-INTERFACE"),
    Alt("E2EProfileCompatibilityProps", "E-2-E-PROFILE-COMPATIBILITY-PROPS"),
    Alt("ApplicationSoftwareComponentType", "APPLICATION-SW-COMPONENT-TYPE"),
    Alt("CompositionSwComponentType", "COMPOSITION-SW-COMPONENT-TYPE"), Alt("SwcImplementation", "SWC-IMPLEMENTATION") >>
]

-----------------------------------------------------------------------------
ClassTab == [
  Package |-> Ident \o << LAny("elements", "ELEMENTS", "Root"), LSub("packages", "AR-PACKAGES", "AR-PACKAGE", "Package") >>,
  (* documentation *)
  Break |-> << >>,
  EmphasisText |-> << Att("color", "COLOR"), AttE("font", "FONT", "EmphasisFont"), AttE("type", "TYPE", "EmphasisType"),
                      Req(Fld("elements", "", "", "text", "", "1")) >>,
  IndexEntry |-> << Req(Txt("text", "")) >>,
  Subscript |-> << Req(Txt("text", "")) >>,
  Superscript |-> << Req(Txt("text", "")) >>,
  TechnicalTerm |-> << Att("tex_render", "TEX-RENDER"), Att("type", "TYPE"), Req(Txt("text", "")) >>,
  LanguageLongName |-> Lang \o << LAny("parts", "", "LongNamePart") >>,
  MultilanguageLongName |-> << LSub("elements", "", "L-4", "LanguageLongName") >>,
  LanguageOverviewParagraph |-> Lang \o << LAny("parts", "", "ParagraphPart") >>,
  MultiLanguageOverviewParagraph |-> << LSub("elements", "", "L-2", "LanguageOverviewParagraph") >>,
  LanguageParagraph |-> Lang \o << LAny("parts", "", "ParagraphPart") >>,
  MultiLanguageParagraph |-> Page \o << Att("help_entry", "HELP-ENTRY"), LSub("elements", "", "L-1", "LanguageParagraph") >>,
  LanguageVerbatim |-> Lang \o << LAny("parts", "", "VerbatimPart") >>,
  MultiLanguageVerbatim |-> Page \o << Att("allow_break", "ALLOW-BREAK"), AttE("float", "FLOAT", "Float"),
      Att("help_entry", "HELP-ENTRY"), AttE("page_wide", "PGWIDE", "PageWide"), LSub("elements", "", "L-5", "LanguageVerbatim") >>,
  SingleLanguageUnitNames |-> << LAny("parts", "", "UnitPart") >>,
  DocumentationBlock |-> << LAny("elements", "", "Block") >>,
  Annotation |-> << Sub("label", "LABEL", "MultilanguageLongName"), Txt("origin", "ANNOTATION-ORIGIN"),
                    Sub("text", "ANNOTATION-TEXT", "DocumentationBlock") >>,
  (* computations, constraints, units *)
  CompuConst |-> << [AnyOf("value", "", "ConstValue") EXCEPT !.m = "r"] >>,
  CompuRational |-> << LNum("numerator", "COMPU-NUMERATOR", "V"), LNum("denominator", "COMPU-DENOMINATOR", "V") >>,
  CompuScale |-> << Txt("label", "SHORT-LABEL"), Txt("symbol", "SYMBOL"), Sub("desc", "DESC", "MultiLanguageOverviewParagraph"),
      Whole("mask", "MASK") >> \o Limits \o
      << Sub("inverse_value", "COMPU-INVERSE-VALUE", "CompuConst"), AnyOf("content", "", "ScaleContent") >>,
  Computation |-> << LSub("compu_scales", "COMPU-SCALES", "COMPU-SCALE", "CompuScale"),
                     Sub("default_value", "COMPU-DEFAULT-VALUE", "CompuConst") >>,
  CompuMethod |-> Ident \o << Txt("display_format", "DISPLAY-FORMAT"), Ref("unit_ref", "UNIT-REF", "UnitRef"),
      Sub("int_to_phys", "COMPU-INTERNAL-TO-PHYS", "Computation"), Sub("phys_to_int", "COMPU-PHYS-TO-INTERNAL", "Computation") >>,
  ScaleConstraint |-> << AttE("validity", "VALIDITY", "ScaleConstraintValidity"), Txt("label", "SHORT-LABEL"),
      Sub("desc", "DESC", "MultiLanguageOverviewParagraph") >> \o Limits,
  InternalConstraint |-> Constrs,
  PhysicalConstraint |-> Constrs \o << Ref("unit_ref", "UNIT-REF", "UnitRef") >>,
  DataConstraintRule |-> << Whole("level", "CONSTR-LEVEL"), Sub("physical", "PHYS-CONSTRS", "PhysicalConstraint"),
      Sub("internal", "INTERNAL-CONSTRS", "InternalConstraint") >>,
  DataConstraint |-> Ident \o << LSub("rules", "DATA-CONSTR-RULES", "DATA-CONSTR-RULE", "DataConstraintRule") >>,
  Unit |-> Ident \o << Sub("display_name", "DISPLAY-NAME", "SingleLanguageUnitNames"), Num("factor", "FACTOR-SI-TO-UNIT"),
      Num("offset", "OFFSET-SI-TO-UNIT"), Ref("physical_dimension_ref", "PHYSICAL-DIMENSION-REF", "PhysicalDimensionRef") >>,
  (* data types *)
  SwBaseType |-> Ident \o << Whole("size", "BASE-TYPE-SIZE"), Whole("max_size", "MAX-BASE-TYPE-SIZE"),
      Txt("encoding", "BASE-TYPE-ENCODING"), Whole("alignment", "MEM-ALIGNMENT"), Enu("byte_order", "BYTE-ORDER", "ByteOrder"),
      Txt("native_declaration", "NATIVE-DECLARATION") >>,
  SwAddrMethod |-> Ident,
  SwBitRepresentation |-> << Whole("position", "BIT-POSITION"), Whole("num_bits", "NUMBER-OF-BITS") >>,
  SwTextProps |-> << Enu("array_size_semantics", "ARRAY-SIZE-SEMANTICS", "ArraySizeSemantics"),
      Whole("max_text_size", "SW-MAX-TEXT-SIZE"), Ref("base_type_ref", "BASE-TYPE-REF", "SwBaseTypeRef"),
      Whole("fill_char", "SW-FILL-CHARACTER") >>,
  SwPointerTargetProps |-> << Txt("target_category", "TARGET-CATEGORY"),
      Sub("sw_data_def_props", "SW-DATA-DEF-PROPS", "SwDataDefProps"),
      Ref("function_ptr_signature_ref", "FUNCTION-POINTER-SIGNATURE-REF", "FunctionPtrSignatureRef") >>,
  SwDataDefPropsConditional |-> <<
      Enu("display_presentation", "DISPLAY-PRESENTATION", "DisplayPresentation"), Num("step_size", "STEP-SIZE"),
      LSub("annotations", "ANNOTATIONS", "ANNOTATION", "Annotation"),
      Ref("sw_addr_method_ref", "SW-ADDR-METHOD-REF", "SwAddrMethodRef"), Whole("alignment", "SW-ALIGNMENT"),
      Ref("base_type_ref", "BASE-TYPE-REF", "SwBaseTypeRef"),
      Sub("bit_representation", "SW-BIT-REPRESENTATION", "SwBitRepresentation"),
      Enu("calibration_access", "SW-CALIBRATION-ACCESS", "SwCalibrationAccess"), Sub("text_props", "SW-TEXT-PROPS", "SwTextProps"),
      Ref("compu_method_ref", "COMPU-METHOD-REF", "CompuMethodRef"), Txt("display_format", "DISPLAY-FORMAT"),
      Ref("data_constraint_ref", "DATA-CONSTR-REF", "DataConstraintRef"),
      Ref("impl_data_type_ref", "IMPLEMENTATION-DATA-TYPE-REF", "ImplementationDataTypeRef"),
      Enu("impl_policy", "SW-IMPL-POLICY", "SwImplPolicy"),
      Txt("additional_native_type_qualifier", "ADDITIONAL-NATIVE-TYPE-QUALIFIER"),
      Num("intended_resolution", "SW-INTENDED-RESOLUTION"), Txt("interpolation_method", "SW-INTERPOLATION-METHOD"),
      Boo("is_virtual", "SW-IS-VIRTUAL"), Sub("ptr_target_props", "SW-POINTER-TARGET-PROPS", "SwPointerTargetProps"),
      Ref("unit_ref", "UNIT-REF", "UnitRef") >>,
  SwDataDefProps |-> << LSub("variants", "SW-DATA-DEF-PROPS-VARIANTS", "SW-DATA-DEF-PROPS-CONDITIONAL", "SwDataDefPropsConditional") >>,
  SymbolProps |-> Referrable \o << Txt("symbol", "SYMBOL") >>,
  ImplementationDataTypeElement |-> Ident \o <<
      Enu("array_impl_policy", "ARRAY-IMPL-POLICY", "ArrayImplPolicy"), Whole("array_size", "ARRAY-SIZE"),
      Enu("array_size_handling", "ARRAY-SIZE-HANDLING", "ArraySizeHandling"),
      Enu("array_size_semantics", "ARRAY-SIZE-SEMANTICS", "ArraySizeSemantics"), Boo("is_optional", "IS-OPTIONAL"),
      LSub("sub_elements", "SUB-ELEMENTS", "IMPLEMENTATION-DATA-TYPE-ELEMENT", "ImplementationDataTypeElement") >> \o DataProps,
  ImplementationDataType |-> Ident \o DataProps \o <<
      Txt("dynamic_array_size_profile", "DYNAMIC-ARRAY-SIZE-PROFILE"),
      Boo("is_struct_with_optional_element", "IS-STRUCT-WITH-OPTIONAL-ELEMENT"),
      LSub("sub_elements", "SUB-ELEMENTS", "IMPLEMENTATION-DATA-TYPE-ELEMENT", "ImplementationDataTypeElement"),
      Sub("symbol_props", "SYMBOL-PROPS", "SymbolProps"), Txt("type_emitter", "TYPE-EMITTER") >>,
  ApplicationPrimitiveDataType |-> Ident \o DataProps,
  ApplicationArrayElement |-> Ident \o CompElem \o <<
      Enu("array_size_handling", "ARRAY-SIZE-HANDLING", "ArraySizeHandling"),
      Enu("array_size_semantics", "ARRAY-SIZE-SEMANTICS", "ArraySizeSemantics"),
      Ref("index_data_type_ref", "INDEX-DATA-TYPE-REF", "IndexDataTypeRef"),
      Whole("max_number_of_elements", "MAX-NUMBER-OF-ELEMENTS") >>,
  ApplicationArrayDataType |-> Ident \o DataProps \o << Txt("dynamic_array_size_profile", "DYNAMIC-ARRAY-SIZE-PROFILE"),
      Sub("element", "ELEMENT", "ApplicationArrayElement") >>,
  ApplicationRecordElement |-> Ident \o CompElem \o << Boo("is_optional", "IS-OPTIONAL") >>,
  ApplicationRecordDataType |-> Ident \o DataProps \o
      << LSub("elements", "ELEMENTS", "APPLICATION-RECORD-ELEMENT", "ApplicationRecordElement") >>,
  DataTypeMap |-> << Ref("appl_data_type_ref", "APPLICATION-DATA-TYPE-REF", "ApplicationDataTypeRef"),
      Ref("impl_data_type_ref", "IMPLEMENTATION-DATA-TYPE-REF", "ImplementationDataTypeRef") >>,
  DataTypeMappingSet |-> Ident \o << LSub("data_type_maps", "DATA-TYPE-MAPS", "DATA-TYPE-MAP", "DataTypeMap") >>,
  ModeRequestTypeMap |-> << Ref("implementation_data_type", "IMPLEMENTATION-DATA-TYPE-REF", "ImplementationDataTypeRef"),
      Ref("mode_group", "MODE-GROUP-REF", "ModeDeclarationGroupRef") >>,   \* only on its own: nothing holds it
  (* data prototypes *)
  VariableDataPrototype |-> Ident \o TypedProto \o << AnyOf("init_value", "INIT-VALUE", "Value") >>,
  ParameterDataPrototype |-> Ident \o TypedProto \o << AnyOf("init_value", "INIT-VALUE", "Value") >>,
  ArgumentDataPrototype |-> Ident \o TypedProto \o << Enu("direction", "DIRECTION", "ArgumentDirection"),
      Enu("server_arg_impl_policy", "SERVER-ARGUMENT-IMPL-POLICY", "ServerArgImplPolicy") >>,
  (* values and constants *)
  ValueList |-> << LNum("values", "", "V") >>,
  SwValues |-> << LAny("values", "", "SwValue") >>,
  ValueGroup |-> << Sub("label", "LABEL", "MultilanguageLongName"), LAny("values", "", "SwValue") >>,
  SwAxisCont |-> << Enu("category", "CATEGORY", "CalibrationAxisCategory"), Ref("unit_ref", "UNIT-REF", "UnitRef"),
      Sub("unit_display_name", "UNIT-DISPLAY-NAME", "SingleLanguageUnitNames"), Whole("sw_axis_index", "SW-AXIS-INDEX"),
      Sub("sw_array_size", "SW-ARRAYSIZE", "ValueList"), Sub("sw_values_phys", "SW-VALUES-PHYS", "SwValues") >>,
  SwValueCont |-> << Ref("unit_ref", "UNIT-REF", "UnitRef"),
      Sub("unit_display_name", "UNIT-DISPLAY-NAME", "SingleLanguageUnitNames"),
      Sub("sw_array_size", "SW-ARRAYSIZE", "ValueList"), Sub("sw_values_phys", "SW-VALUES-PHYS", "SwValues") >>,
  TextValueSpecification |-> Label \o << Txt("value", "VALUE") >>,
  NumericalValueSpecification |-> Label \o << Num("value", "VALUE") >>,
  NotAvailableValueSpecification |-> Label \o << Whole("default_pattern", "DEFAULT-PATTERN") >>,
  ArrayValueSpecification |-> Label \o << LAny("elements", "ELEMENTS", "Value") >>,
  RecordValueSpecification |-> Label \o << LAny("fields", "FIELDS", "Value") >>,
  ApplicationValueSpecification |-> Label \o << Txt("category", "CATEGORY"),
      LSub("sw_axis_conts", "SW-AXIS-CONTS", "SW-AXIS-CONT", "SwAxisCont"), Sub("sw_value_cont", "SW-VALUE-CONT", "SwValueCont") >>,
  ConstantReference |-> Label \o << Ref("constant_ref", "CONSTANT-REF", "ConstantRef") >>,
  ConstantSpecification |-> Ident \o << AnyOf("value", "VALUE-SPEC", "Value") >>,
  (* modes *)
  ModeDeclaration |-> Ident \o << Whole("value", "VALUE") >>,
  ModeErrorBehavior |-> << Ref("default_mode_ref", "DEFAULT-MODE-REF", "ModeDeclarationRef"),
      Enu("error_reaction_policy", "ERROR-REACTION-POLICY", "ModeErrorReactionPolicy") >>,
  ModeTransition |-> Ident \o << Ref("entered_mode_ref", "ENTERED-MODE-REF", "ModeDeclarationRef"),
      Ref("exited_mode_ref", "EXITED-MODE-REF", "ModeDeclarationRef") >>,
  ModeDeclarationGroup |-> Ident \o << Ref("initial_mode_ref", "INITIAL-MODE-REF", "ModeDeclarationRef"),
      LSub("mode_declarations", "MODE-DECLARATIONS", "MODE-DECLARATION", "ModeDeclaration"),
      Sub("mode_manager_error_behavior", "MODE-MANAGER-ERROR-BEHAVIOR", "ModeErrorBehavior"),
      LSub("mode_transitions", "MODE-TRANSITIONS", "MODE-TRANSITION", "ModeTransition"),
      Sub("mode_user_error_behavior", "MODE-USER-ERROR-BEHAVIOR", "ModeErrorBehavior"),
      Whole("on_transition_value", "ON-TRANSITION-VALUE") >>,
  ModeDeclarationGroupPrototype |-> Ident \o << Enu("calibration_access", "SW-CALIBRATION-ACCESS", "SwCalibrationAccess"),
      Ref("type_ref", "TYPE-TREF", "ModeDeclarationGroupRef") >>,
  (* port interfaces *)
  InvalidationPolicy |-> << Ref("data_element_ref", "DATA-ELEMENT-REF", "VariableDataPrototypeRef"),
      Enu("handle_invalid", "HANDLE-INVALID", "HandleInvalid") >>,
  SenderReceiverInterface |-> Ident \o Iface \o <<
      LSub("data_elements", "DATA-ELEMENTS", "VARIABLE-DATA-PROTOTYPE", "VariableDataPrototype"),
      LSub("invalidation_policies", "INVALIDATION-POLICYS", "INVALIDATION-POLICY", "InvalidationPolicy") >>,
  NvDataInterface |-> Ident \o Iface \o << LSub("data_elements", "NV-DATAS", "VARIABLE-DATA-PROTOTYPE", "VariableDataPrototype") >>,
  ParameterInterface |-> Ident \o Iface \o << LSub("parameters", "PARAMETERS", "PARAMETER-DATA-PROTOTYPE", "ParameterDataPrototype") >>,
  ApplicationError |-> Ident \o << Whole("error_code", "ERROR-CODE") >>,
  ClientServerOperation |-> Ident \o << LSub("arguments", "ARGUMENTS", "ARGUMENT-DATA-PROTOTYPE", "ArgumentDataPrototype"),
      Boo("diag_arg_integrity", "DIAG-ARG-INTEGRITY"), Boo("fire_and_forget", "FIRE-AND-FORGET"),
      LRef("possible_error_refs", "POSSIBLE-ERROR-REFS", "POSSIBLE-ERROR-REF", "ApplicationErrorRef") >>,
  ClientServerInterface |-> Ident \o Iface \o <<
      LSub("operations", "OPERATIONS", "CLIENT-SERVER-OPERATION", "ClientServerOperation"),
      LSub("possible_errors", "POSSIBLE-ERRORS", "APPLICATION-ERROR", "ApplicationError") >>,
  ModeSwitchInterface |-> Ident \o Iface \o << Sub("mode_group", "MODE-GROUP", "ModeDeclarationGroupPrototype") >>,
  E2EProfileCompatibilityProps |-> Ident \o << Boo("transit_to_invalid_extended", "TRANSIT-TO-INVALID-EXTENDED") >>,
  (* communication specifications *)
  EndToEndTransformationComSpecProps |-> Describ \o <<
      Boo("clear_from_valid_to_invalid", "CLEAR-FROM-VALID-TO-INVALID"), Boo("disable_e2e_check", "DISABLE-END-TO-END-CHECK"),
      Boo("disable_e2e_state_machine", "DISABLE-END-TO-END-STATE-MACHINE"),
      Ref("e2e_profile_compatibility_props_ref", "E-2-E-PROFILE-COMPATIBILITY-PROPS-REF", "E2EProfileCompatibilityPropsRef"),
      Whole("max_delta_counter", "MAX-DELTA-COUNTER"), Whole("max_error_state_init", "MAX-ERROR-STATE-INIT"),
      Whole("max_error_state_invalid", "MAX-ERROR-STATE-INVALID"), Whole("max_error_state_valid", "MAX-ERROR-STATE-VALID"),
      Whole("max_no_new_repeated_data", "MAX-NO-NEW-OR-REPEATED-DATA"), Whole("min_ok_state_init", "MIN-OK-STATE-INIT"),
      Whole("min_ok_state_invalid", "MIN-OK-STATE-INVALID"), Whole("min_ok_state_valid", "MIN-OK-STATE-VALID"),
      Whole("sync_counter_init", "SYNC-COUNTER-INIT"), Whole("window_size", "WINDOW-SIZE"), Whole("window_size_init", "WINDOW-SIZE-INIT"),
      Whole("window_size_invalid", "WINDOW-SIZE-INVALID"), Whole("window_size_valid", "WINDOW-SIZE-VALID") >>,
  ModeSwitchedAckRequest |-> << Num("timeout", "TIMEOUT") >>,
  TransmissionAcknowledgementRequest |-> << Num("timeout", "TIMEOUT") >>,
  TransmissionComSpecProps |-> << Num("data_update_period", "DATA-UPDATE-PERIOD"),
      Num("minimum_send_interval", "MINIMUM-SEND-INTERVAL"), Enu("transmission_mode", "TRANSMISSION-MODE", "TransmissionMode") >>,
  ReceptionComSpecProps |-> << Num("data_update_period", "DATA-UPDATE-PERIOD"), Num("timeout", "TIMEOUT") >>,
  DataFilter |-> << Enu("data_filter_type", "DATA-FILTER-TYPE", "DataFilterType"), Whole("mask", "MASK"), Whole("max_val", "MAX"),
      Whole("min_val", "MIN"), Whole("offset", "OFFSET"), Whole("period", "PERIOD"), Whole("x", "X") >>,
  ModeSwitchSenderComSpec |-> << Boo("enhanced_mode_api", "ENHANCED-MODE-API"),
      Ref("mode_group_ref", "MODE-GROUP-REF", "ModeDeclarationGroupPrototypeRef"),
      Sub("mode_switched_ack", "MODE-SWITCHED-ACK", "ModeSwitchedAckRequest"), Whole("queue_length", "QUEUE-LENGTH") >>,
  QueuedSenderComSpec |-> Sender,
  NonqueuedSenderComSpec |-> Sender \o << Sub("data_filter", "DATA-FILTER", "DataFilter"), AnyOf("init_value", "INIT-VALUE", "Value") >>,
  NvProvideComSpec |-> << AnyOf("ram_block_init_value", "RAM-BLOCK-INIT-VALUE", "Value"),
      AnyOf("rom_block_init_value", "ROM-BLOCK-INIT-VALUE", "Value"), Ref("variable_ref", "VARIABLE-REF", "VariableDataPrototypeRef") >>,
  ParameterProvideComSpec |-> << AnyOf("init_value", "INIT-VALUE", "Value"),
      Ref("parameter_ref", "PARAMETER-REF", "ParameterDataPrototypeRef") >>,
  ServerComSpec |-> << Ref("operation_ref", "OPERATION-REF", "ClientServerOperationRef"), Whole("queue_length", "QUEUE-LENGTH"),
      LAny("transformation_com_spec_props", "TRANSFORMATION-COM-SPEC-PROPSS", "TransformProps") >>,
  QueuedReceiverComSpec |-> Receiver \o << Whole("queue_length", "QUEUE-LENGTH") >>,
  NonqueuedReceiverComSpec |-> Receiver \o << Num("alive_timeout", "ALIVE-TIMEOUT"), Boo("enable_update", "ENABLE-UPDATE"),
      Sub("data_filter", "FILTER", "DataFilter"), Boo("handle_data_status", "HANDLE-DATA-STATUS"),
      Boo("handle_never_received", "HANDLE-NEVER-RECEIVED"), Enu("handle_timeout_type", "HANDLE-TIMEOUT-TYPE", "HandleTimeout"),
      AnyOf("init_value", "INIT-VALUE", "Value"), AnyOf("timeout_substitution_value", "TIMEOUT-SUBSTITUTION-VALUE", "Value") >>,
  NvRequireComSpec |-> << AnyOf("init_value", "INIT-VALUE", "Value"), Ref("variable_ref", "VARIABLE-REF", "VariableDataPrototypeRef") >>,
  ParameterRequireComSpec |-> << AnyOf("init_value", "INIT-VALUE", "Value"),
      Ref("parameter_ref", "PARAMETER-REF", "ParameterDataPrototypeRef") >>,
  ModeSwitchReceiverComSpec |-> << Boo("enhanced_mode_api", "ENHANCED-MODE-API"),
      Ref("mode_group_ref", "MODE-GROUP-REF", "ModeDeclarationGroupPrototypeRef"),
      Boo("supports_async", "SUPPORTS-ASYNCHRONOUS-MODE-SWITCH") >>,
  ClientComSpec |-> << Num("e2e_call_respone_timeout", "END-TO-END-CALL-RESPONSE-TIMEOUT"),
      Ref("operation_ref", "OPERATION-REF", "ClientServerOperationRef"),
      LAny("transformation_com_spec_props", "TRANSFORMATION-COM-SPEC-PROPSS", "TransformProps") >>,
  (* ports and components *)
  ProvidePortPrototype |-> Ident \o << LAny("com_spec", "PROVIDED-COM-SPECS", "ProvidedSpec"),
      Ref("port_interface_ref", "PROVIDED-INTERFACE-TREF", "PortInterfaceRef") >>,
  RequirePortPrototype |-> Ident \o << LAny("com_spec", "REQUIRED-COM-SPECS", "RequiredSpec"),
      Boo("allow_unconnected", "MAY-BE-UNCONNECTED"), Ref("port_interface_ref", "REQUIRED-INTERFACE-TREF", "PortInterfaceRef") >>,
  PRPortPrototype |-> Ident \o << LAny("provided_com_spec", "PROVIDED-COM-SPECS", "ProvidedSpec"),
      LAny("required_com_spec", "REQUIRED-COM-SPECS", "RequiredSpec"),
      Ref("port_interface_ref", "PROVIDED-REQUIRED-INTERFACE-TREF", "PortInterfaceRef") >>,
  ApplicationSoftwareComponentType |-> Ident \o << LAny("ports", "PORTS", "Port"),
      Fld("internal_behavior", "INTERNAL-BEHAVIORS", "SWC-INTERNAL-BEHAVIOR", "sub", "SwcInternalBehavior", "1"),
      Sub("symbol_props", "SYMBOL-PROPS", "SymbolProps") >>,
  SwComponentPrototype |-> Ident \o << Ref("type_ref", "TYPE-TREF", "SwComponentTypeRef") >>,
  PortInCompositionTypeInstanceRef_P |-> << Ref("component_ref", "CONTEXT-COMPONENT-REF", "SwComponentPrototypeRef"),
      Req(Ref("port_ref", "TARGET-P-PORT-REF", "PortPrototypeRef_P")) >>,
  PortInCompositionTypeInstanceRef_R |-> << Ref("component_ref", "CONTEXT-COMPONENT-REF", "SwComponentPrototypeRef"),
      Req(Ref("port_ref", "TARGET-R-PORT-REF", "PortPrototypeRef_R")) >>,
  AssemblySwConnector |-> Ident \o << Sub("provide_port", "PROVIDER-IREF", "PortInCompositionTypeInstanceRef_P"),
      Sub("require_port", "REQUESTER-IREF", "PortInCompositionTypeInstanceRef_R") >>,
  DelegationSwConnector |-> Ident \o << AnyOf("inner_port", "INNER-PORT-IREF", "InnerPort"),
      Ref("outer_port", "OUTER-PORT-REF", "PortPrototypeRef") >>,
  PassThroughSwConnector |-> Ident \o << Ref("provide_port", "PROVIDED-OUTER-PORT-REF", "PortPrototypeRef"),
      Ref("require_port", "REQUIRED-OUTER-PORT-REF", "PortPrototypeRef") >>,
  CompositionSwComponentType |-> Ident \o << LAny("ports", "PORTS", "Port"),
      LSub("components", "COMPONENTS", "SW-COMPONENT-PROTOTYPE", "SwComponentPrototype"), LAny("connectors", "CONNECTORS", "Connector") >>,
  AutosarEngineeringObject |-> << Txt("label", "SHORT-LABEL"), Txt("category", "CATEGORY") >>,
  Code |-> Ident \o << LSub("artifact_descriptors", "ARTIFACT-DESCRIPTORS", "AUTOSAR-ENGINEERING-OBJECT", "AutosarEngineeringObject") >>,
  SwcImplementation |-> Ident \o << LSub("code_descriptors", "CODE-DESCRIPTORS", "CODE", "Code"),
      Ref("behavior_ref", "BEHAVIOR-REF", "SwcInternalBehaviorRef"), Txt("required_rte_vendor", "REQUIRED-RTE-VENDOR") >>,
  (* instance references *)
  POperationInAtomicSwcInstanceRef |-> << ProvPort,
      Ref("target_provided_operation", "TARGET-PROVIDED-OPERATION-REF", "ClientServerOperationRef") >>,
  ROperationInAtomicSwcInstanceRef |-> << ReqPort,
      Ref("target_required_operation", "TARGET-REQUIRED-OPERATION-REF", "ClientServerOperationRef") >>,
  PModeGroupInAtomicSwcInstanceRef |-> << ProvPort,
      Ref("target_mode_group", "TARGET-MODE-GROUP-REF", "ModeDeclarationGroupPrototypeRef") >>,
  RModeGroupInAtomicSwcInstanceRef |-> << ReqPort,
      Ref("target_mode_group", "TARGET-MODE-GROUP-REF", "ModeDeclarationGroupPrototypeRef") >>,
  PTriggerInAtomicSwcTypeInstanceRef |-> << ProvPort, Ref("target_trigger", "TARGET-TRIGGER-REF", "TriggerRef") >>,
  RTriggerInAtomicSwcInstanceRef |-> << ReqPort, Ref("target_trigger", "TARGET-TRIGGER-REF", "TriggerRef") >>,
  RModeInAtomicSwcInstanceRef |-> << Ref("context_port", "CONTEXT-PORT-REF", "AbstractRequiredPortPrototypeRef"),
      Ref("context_mode_declaration_group_prototype", "CONTEXT-MODE-DECLARATION-GROUP-PROTOTYPE-REF", "ModeDeclarationGroupPrototypeRef"),
      Ref("target_mode_declaration", "TARGET-MODE-DECLARATION-REF", "ModeDeclarationRef") >>,
  RVariableInAtomicSwcInstanceRef |-> << ReqPort,
      Ref("target_data_element", "TARGET-DATA-ELEMENT-REF", "VariableDataPrototypeRef") >>,
  ArVariableInImplementationDataInstanceRef |-> << Ref("port_prototype_ref", "PORT-PROTOTYPE-REF", "PortPrototypeRef"),
      Ref("root_variable_data_prototype_ref", "ROOT-VARIABLE-DATA-PROTOTYPE-REF", "VariableDataPrototypeRef"),
      LRef("context_data_prototype_refs", "CONTEXT-DATA-PROTOTYPE-REFS", "CONTEXT-DATA-PROTOTYPE-REF",
           "AbstractImplementationDataTypeElementRef"),
      Ref("target_data_prototype_ref", "TARGET-DATA-PROTOTYPE-REF", "AbstractImplementationDataTypeElementRef") >>,
  VariableInAtomicSWCTypeInstanceRef |-> << Ref("port_prototype_ref", "PORT-PROTOTYPE-REF", "PortPrototypeRef"),
      Ref("root_variable_data_prototype_ref", "ROOT-VARIABLE-DATA-PROTOTYPE-REF", "VariableDataPrototypeRef"),
      LRef("context_data_prototype_refs", "", "CONTEXT-DATA-PROTOTYPE-REF", "ApplicationCompositeElementDataPrototypeRef"),
      Ref("target_data_prototype_ref", "TARGET-DATA-PROTOTYPE-REF", "DataPrototypeRef") >>,
  AutosarVariableRef |-> <<
      Sub("ar_variable_in_impl_datatype", "AUTOSAR-VARIABLE-IN-IMPL-DATATYPE", "ArVariableInImplementationDataInstanceRef"),
      Sub("ar_variable_iref", "AUTOSAR-VARIABLE-IREF", "VariableInAtomicSWCTypeInstanceRef"),
      Ref("local_variable_ref", "LOCAL-VARIABLE-REF", "VariableDataPrototypeRef") >>,
  ParameterInAtomicSwcTypeInstanceRef |-> << Ref("port_prototype", "PORT-PROTOTYPE-REF", "PortPrototypeRef"),
      Ref("root_parameter_data_prototype", "ROOT-PARAMETER-DATA-PROTOTYPE-REF", "DataPrototypeRef"),
      Ref("context_data_prototype", "CONTEXT-DATA-PROTOTYPE-REF", "ApplicationCompositeElementDataPrototypeRef"),
      Ref("target_data_prototype", "TARGET-DATA-PROTOTYPE-REF", "DataPrototypeRef") >>,
  AutosarParameterRef |-> << Sub("autosar_parameter", "AUTOSAR-PARAMETER-IREF", "ParameterInAtomicSwcTypeInstanceRef"),
      Ref("local_parameter", "LOCAL-PARAMETER-REF", "DataPrototypeRef") >>,
  (* internal behaviour *)
  VariableAccess |-> Ident \o << Sub("accessed_variable", "ACCESSED-VARIABLE", "AutosarVariableRef"),
      Enu("scope", "SCOPE", "VariableAccessScope") >>,
  ExecutableEntityActivationReason |-> Referrable \o << Txt("symbol", "SYMBOL"), Whole("bit_position", "BIT-POSITION") >>,
  ExclusiveAreaRefConditional |-> << Ref("exclusive_area", "EXCLUSIVE-AREA-REF", "ExclusiveAreaRef") >>,
  RunnableEntityArgument |-> << Txt("symbol", "SYMBOL") >>,
  AsynchronousServerCallPoint |-> Ident \o Access \o CallPoint,
  SynchronousServerCallPoint |-> Ident \o Access \o CallPoint \o
      << Ref("called_from_within_exclusive_area", "CALLED-FROM-WITHIN-EXCLUSIVE-AREA-REF", "ExclusiveAreaNestingOrderRef") >>,
  AsynchronousServerCallResultPoint |-> Ident \o Access \o
      << Ref("async_server_call_point", "ASYNCHRONOUS-SERVER-CALL-POINT-REF", "AsynchronousServerCallPointRef") >>,
  ExternalTriggeringPointIdent |-> Ident \o Access,
  ExternalTriggeringPoint |-> << Sub("ident", "IDENT", "ExternalTriggeringPointIdent"),
      Sub("trigger", "TRIGGER-IREF", "PTriggerInAtomicSwcTypeInstanceRef") >>,
  InternalTriggeringPoint |-> Ident \o Access \o << Enu("sw_impl_policy", "SW-IMPL-POLICY", "SwImplPolicy") >>,
  ModeAccessPointIdent |-> Ident \o Access,
  ModeAccessPoint |-> << Sub("ident", "IDENT", "ModeAccessPointIdent"), AnyOf("mode_group", "MODE-GROUP-IREF", "ModeGroup") >>,
  ModeSwitchPoint |-> Ident \o Access \o << Sub("mode_group", "MODE-GROUP-IREF", "PModeGroupInAtomicSwcInstanceRef") >>,
  ParameterAccess |-> Ident \o Access \o << Sub("accessed_parameter", "ACCESSED-PARAMETER", "AutosarParameterRef") >> \o DataProps,
  WaitPoint |-> Ident \o << Num("timeout", "TIMEOUT"), Ref("trigger", "TRIGGER-REF", "RteEventRef") >>,
  RunnableEntity |-> Ident \o <<
      LSub("activation_reasons", "ACTIVATION-REASONS", "EXECUTABLE-ENTITY-ACTIVATION-REASON", "ExecutableEntityActivationReason"),
      LSub("can_enter_leave", "CAN-ENTERS", "EXCLUSIVE-AREA-REF-CONDITIONAL", "ExclusiveAreaRefConditional"),
      LRef("exclusive_area_nesting_order", "EXCLUSIVE-AREA-NESTING-ORDER-REFS", "EXCLUSIVE-AREA-NESTING-ORDER-REF",
           "ExclusiveAreaNestingOrderRef"),
      Num("minimum_start_interval", "MINIMUM-START-INTERVAL"), Enu("reentrancy_level", "REENTRANCY-LEVEL", "ReentrancyLevel"),
      LSub("runs_insides", "RUNS-INSIDES", "EXCLUSIVE-AREA-REF-CONDITIONAL", "ExclusiveAreaRefConditional"),
      Ref("sw_addr_method", "SW-ADDR-METHOD-REF", "SwAddrMethodRef"),
      LSub("argument", "ARGUMENTS", "RUNNABLE-ENTITY-ARGUMENT", "RunnableEntityArgument"),
      LSub("async_server_call_result_point", "ASYNCHRONOUS-SERVER-CALL-RESULT-POINTS", "ASYNCHRONOUS-SERVER-CALL-RESULT-POINT",
           "AsynchronousServerCallResultPoint"),
      Boo("can_be_invoked_concurrently", "CAN-BE-INVOKED-CONCURRENTLY"),
      VarAccess("data_read_access", "DATA-READ-ACCESSS"),
      VarAccess("data_receive_point_by_argument", "DATA-RECEIVE-POINT-BY-ARGUMENTS"),
      VarAccess("data_receive_point_by_value", "DATA-RECEIVE-POINT-BY-VALUES"),
      VarAccess("data_send_point", "DATA-SEND-POINTS"), VarAccess("data_write_access", "DATA-WRITE-ACCESSS"),
      LSub("external_triggering_point", "EXTERNAL-TRIGGERING-POINTS", "EXTERNAL-TRIGGERING-POINT", "ExternalTriggeringPoint"),
      LSub("internal_triggering_point", "INTERNAL-TRIGGERING-POINTS", "INTERNAL-TRIGGERING-POINT", "InternalTriggeringPoint"),
      LSub("mode_access_point", "MODE-ACCESS-POINTS", "MODE-ACCESS-POINT", "ModeAccessPoint"),
      LSub("mode_switch_point", "MODE-SWITCH-POINTS", "MODE-SWITCH-POINT", "ModeSwitchPoint"),
      LSub("parameter_access", "PARAMETER-ACCESSS", "PARAMETER-ACCESS", "ParameterAccess"),
      VarAccess("read_local_variable", "READ-LOCAL-VARIABLES"),
      LAny("server_call_point", "SERVER-CALL-POINTS", "ServerCall"), Txt("symbol", "SYMBOL"),
      LSub("wait_point", "WAIT-POINTS", "WAIT-POINT", "WaitPoint"),
      VarAccess("write_local_variable", "WRITTEN-LOCAL-VARIABLES") >>,
  AsynchronousServerCallReturnsEvent |-> Ident \o Event \o
      << Ref("event_source", "EVENT-SOURCE-REF", "AsynchronousServerCallResultPointRef") >>,
  BackgroundEvent |-> Ident \o Event,
  DataReceiveErrorEvent |-> Ident \o Event \o << Sub("data", "DATA-IREF", "RVariableInAtomicSwcInstanceRef") >>,
  DataReceivedEvent |-> Ident \o Event \o << Sub("data", "DATA-IREF", "RVariableInAtomicSwcInstanceRef") >>,
  DataSendCompletedEvent |-> Ident \o Event \o << Ref("event_source", "EVENT-SOURCE-REF", "VariableAccessRef") >>,
  DataWriteCompletedEvent |-> Ident \o Event \o << Ref("event_source", "EVENT-SOURCE-REF", "VariableAccessRef") >>,
  ExternalTriggerOccurredEvent |-> Ident \o Event \o << Sub("trigger", "TRIGGER-IREF", "RTriggerInAtomicSwcInstanceRef") >>,
  InitEvent |-> Ident \o Event,
  InternalTriggerOccurredEvent |-> Ident \o Event \o << Ref("event_source", "EVENT-SOURCE-REF", "InternalTriggeringPointRef") >>,
  ModeSwitchedAckEvent |-> Ident \o Event \o << Ref("event_source", "EVENT-SOURCE-REF", "ModeSwitchPointRef") >>,
  OperationInvokedEvent |-> Ident \o Event \o << Sub("operation", "OPERATION-IREF", "POperationInAtomicSwcInstanceRef") >>,
  SwcModeManagerErrorEvent |-> Ident \o Event \o << Sub("mode_group", "MODE-GROUP-IREF", "PModeGroupInAtomicSwcInstanceRef") >>,
  SwcModeSwitchEvent |-> Ident \o Event \o << Enu("activation", "ACTIVATION", "ModeActivationKind"),
      Fld("mode", "MODE-IREFS", "MODE-IREF", "sub", "RModeInAtomicSwcInstanceRef", "2") >>,
  TimingEvent |-> Ident \o Event \o << Num("offset", "OFFSET"), Num("period", "PERIOD") >>,
  TransformerHardErrorEvent |-> Ident \o Event \o << Sub("operation", "OPERATION-IREF", "POperationInAtomicSwcInstanceRef"),
      Sub("required_trigger", "REQUIRED-TRIGGER-IREF", "RTriggerInAtomicSwcInstanceRef"),
      Sub("trigger", "TRIGGER-IREF", "PTriggerInAtomicSwcTypeInstanceRef") >>,
  PortDefinedArgumentValue |-> << AnyOf("value", "VALUE", "Value"), Ref("value_type", "VALUE-TYPE-TREF", "ImplementationDataTypeRef") >>,
  CommunicationBufferLocking |-> << Enu("support_buffer_locking", "SUPPORT-BUFFER-LOCKING", "SupportBufferLocking") >>,
  PortApiOption |-> << Boo("enable_take_address", "ENABLE-TAKE-ADDRESS"),
      Enu("error_handling", "ERROR-HANDLING", "DataTransformationErrorHandling"), Boo("indirect_api", "INDIRECT-API"),
      LSub("port_arg_values", "PORT-ARG-VALUES", "PORT-DEFINED-ARGUMENT-VALUE", "PortDefinedArgumentValue"),
      Req(Ref("port", "PORT-REF", "PortPrototypeRef")), LAny("supported_features", "SUPPORTED-FEATURES", "Feature"),
      Enu("transformer_status_forwarding", "TRANSFORMER-STATUS-FORWARDING", "DataTransformationStatusForwarding") >>,
  ExclusiveArea |-> Ident,
  SwcInternalBehavior |-> Ident \o <<
      LRef("data_type_mappings", "DATA-TYPE-MAPPING-REFS", "DATA-TYPE-MAPPING-REF", "DataTypeMappingSetRef"),
      LSub("exclusive_areas", "EXCLUSIVE-AREAS", "EXCLUSIVE-AREA", "ExclusiveArea"), LAny("events", "EVENTS", "RteEvent"),
      LSub("port_api_options", "PORT-API-OPTIONS", "PORT-API-OPTION", "PortApiOption"),
      LSub("runnables", "RUNNABLES", "RUNNABLE-ENTITY", "RunnableEntity") >>
]
=============================================================================
