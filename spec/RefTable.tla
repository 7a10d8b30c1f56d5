----------------------------- MODULE RefTable ------------------------------
(* Typed references: the destination kinds each reference type may hold     *)
EXTENDS Kit
RefTab == [
  AbstractImplementationDataTypeElementRef |-> << "ABSTRACT_IMPLEMENTATION_DATA_TYPE_ELEMENT",
        "IMPLEMENTATION_DATA_TYPE_ELEMENT" >>,
  AbstractProvidedPortPrototypeRef |-> << "ABSTRACT_PROVIDED_PORT_PROTOTYPE", "PR_PORT_PROTOTYPE", "P_PORT_PROTOTYPE" >>,
  AbstractRequiredPortPrototypeRef |-> << "ABSTRACT_REQUIRED_PORT_PROTOTYPE", "PR_PORT_PROTOTYPE", "R_PORT_PROTOTYPE" >>,
  ApplicationArrayElementRef |-> << "APPLICATION_ARRAY_ELEMENT" >>,
  ApplicationCompositeElementDataPrototypeRef |-> << "APPLICATION_ARRAY_ELEMENT",
        "APPLICATION_COMPOSITE_ELEMENT_DATA_PROTOTYPE", "APPLICATION_RECORD_ELEMENT" >>,
  ApplicationDataTypeRef |-> << "APPLICATION_ARRAY_DATA_TYPE", "APPLICATION_COMPOSITE_DATA_TYPE",
        "APPLICATION_DATA_TYPE", "APPLICATION_DEFERRED_DATA_TYPE", "APPLICATION_PRIMITIVE_DATA_TYPE",
        "APPLICATION_RECORD_DATA_TYPE" >>,
  ApplicationErrorRef |-> << "APPLICATION_ERROR" >>,
  ApplicationRecordElementRef |-> << "APPLICATION_RECORD_ELEMENT" >>,
  ArgumentDataPrototypeRef |-> << "ARGUMENT_DATA_PROTOTYPE" >>,
  AsynchronousServerCallPointRef |-> << "ASYNCHRONOUS_SERVER_CALL_POINT" >>,
  AsynchronousServerCallResultPointRef |-> << "ASYNCHRONOUS_SERVER_CALL_RESULT_POINT" >>,
  AutosarDataPrototypeRef |-> << "ARGUMENT_DATA_PROTOTYPE", "PARAMETER_DATA_PROTOTYPE", "VARIABLE_DATA_PROTOTYPE" >>,
  AutosarDataTypeRef |-> << "ABSTRACT_IMPLEMENTATION_DATA_TYPE", "APPLICATION_ARRAY_DATA_TYPE",
        "APPLICATION_COMPOSITE_DATA_TYPE", "APPLICATION_DATA_TYPE", "APPLICATION_DEFERRED_DATA_TYPE",
        "APPLICATION_PRIMITIVE_DATA_TYPE", "APPLICATION_RECORD_DATA_TYPE", "AUTOSAR_DATA_TYPE",
        "IMPLEMENTATION_DATA_TYPE" >>,
  ClientServerOperationRef |-> << "CLIENT_SERVER_OPERATION" >>,
  CompuMethodRef |-> << "COMPU_METHOD" >>,
  ConstantRef |-> << "CONSTANT_SPECIFICATION" >>,
  DataConstraintRef |-> << "DATA_CONSTR" >>,
  DataPrototypeRef |-> << "APPLICATION_ARRAY_ELEMENT", "APPLICATION_COMPOSITE_ELEMENT_DATA_PROTOTYPE",
        "APPLICATION_RECORD_ELEMENT", "ARGUMENT_DATA_PROTOTYPE", "AUTOSAR_DATA_PROTOTYPE", "DATA_PROTOTYPE",
        "PARAMETER_DATA_PROTOTYPE", "VARIABLE_DATA_PROTOTYPE" >>,
  DataTypeMappingSetRef |-> << "DATA_TYPE_MAPPING_SET" >>,
  E2EProfileCompatibilityPropsRef |-> << "E2E_PROFILE_COMPATIBILITY_PROPS" >>,
  ExclusiveAreaNestingOrderRef |-> << "EXCLUSIVE_AREA_NESTING_ORDER" >>,
  ExclusiveAreaRef |-> << "EXCLUSIVE_AREA" >>,
  FunctionPtrSignatureRef |-> << "BSW_MODULE_ENTRY" >>,
  ImplementationDataTypeRef |-> << "IMPLEMENTATION_DATA_TYPE" >>,
  IndexDataTypeRef |-> << "APPLICATION_PRIMITIVE_DATA_TYPE" >>,
  InternalTriggeringPointRef |-> << "INTERNAL_TRIGGERING_POINT" >>,
  ModeDeclarationGroupPrototypeRef |-> << "MODE_DECLARATION_GROUP_PROTOTYPE" >>,
  ModeDeclarationGroupRef |-> << "MODE_DECLARATION_GROUP" >>,
  ModeDeclarationRef |-> << "MODE_DECLARATION" >>,
  ModeSwitchPointRef |-> << "MODE_SWITCH_POINT" >>,
  PackageRef |-> << "AR_PACKAGE" >>,
  ParameterDataPrototypeRef |-> << "PARAMETER_DATA_PROTOTYPE" >>,
  PhysicalDimensionRef |-> << "PHYSICAL_DIMENSION" >>,
  PortInterfaceRef |-> << "CLIENT_SERVER_INTERFACE", "MODE_SWITCH_INTERFACE", "NV_DATA_INTERFACE",
        "PARAMETER_INTERFACE", "SENDER_RECEIVER_INTERFACE" >>,
  PortPrototypeRef |-> << "ABSTRACT_PROVIDED_PORT_PROTOTYPE", "ABSTRACT_REQUIRED_PORT_PROTOTYPE",
        "PR_PORT_PROTOTYPE", "P_PORT_PROTOTYPE", "R_PORT_PROTOTYPE" >>,
  PortPrototypeRef_P |-> << "ABSTRACT_PROVIDED_PORT_PROTOTYPE", "PR_PORT_PROTOTYPE", "P_PORT_PROTOTYPE" >>,
  PortPrototypeRef_R |-> << "ABSTRACT_REQUIRED_PORT_PROTOTYPE", "R_PORT_PROTOTYPE" >>,
  RteEventRef |-> << "ASYNCHRONOUS_SERVER_CALL_RETURNS_EVENT", "BACKGROUND_EVENT", "DATA_RECEIVED_EVENT",
        "DATA_RECEIVE_ERROR_EVENT", "DATA_SEND_COMPLETED_EVENT", "DATA_WRITE_COMPLETED_EVENT",
        "EXTERNAL_TRIGGER_OCCURRED_EVENT", "INIT_EVENT", "INTERNAL_TRIGGER_OCCURRED_EVENT",
        "MODE_SWITCHED_ACK_EVENT", "OPERATION_INVOKED_EVENT", "SWC_MODE_MANAGER_ERROR_EVENT",
        "SWC_MODE_SWITCH_EVENT", "TIMING_EVENT", "TRANSFORMER_HARD_ERROR_EVENT" >>,
  RunnableEntityRef |-> << "RUNNABLE_ENTITY" >>,
  SwAddrMethodRef |-> << "SW_ADDR_METHOD" >>,
  SwBaseTypeRef |-> << "SW_BASE_TYPE" >>,
  SwComponentPrototypeRef |-> << "SW_COMPONENT_PROTOTYPE" >>,
  SwComponentTypeRef |-> << "APPLICATION_SW_COMPONENT_TYPE", "COMPOSITION_SW_COMPONENT_TYPE" >>,
  SwcImplementationRef |-> << "SWC_IMPLEMENTATION" >>,
  SwcInternalBehaviorRef |-> << "SWC_INTERNAL_BEHAVIOR" >>,
  TriggerRef |-> << "TRIGGER" >>,
  UnitRef |-> << "UNIT" >>,
  VariableAccessRef |-> << "VARIABLE_ACCESS" >>,
  VariableDataPrototypeRef |-> << "VARIABLE_DATA_PROTOTYPE" >>
]
=============================================================================
