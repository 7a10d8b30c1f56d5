----------------------------- MODULE EnumTable -----------------------------
(* The enumerations of the AUTOSAR schema the library covers: member name,  *)
(* ARXML text, first schema version that defines it.  Reviewed against the  *)
(* AUTOSAR schema's simple types (...--SIMPLE); frozen here as the reference. *)
EXTENDS Kit
M(n, t) == [n |-> n, t |-> t, lo |-> 48]
MV(n, t, lo) == [n |-> n, t |-> t, lo |-> lo]
EnumTab == [
  ArgumentDirection |-> <<
    M("IN", "IN"), M("INOUT", "INOUT"), M("OUT", "OUT") >>,
  ArrayImplPolicy |-> <<
    MV("PAYLOAD_AS_ARRAY", "PAYLOAD-AS-ARRAY", 49),
    MV("PAYLOAD_AS_POINTER_TO_ARRAY", "PAYLOAD-AS-POINTER-TO-ARRAY", 49) >>,
  ArraySizeHandling |-> <<
    M("ALL_INDICES_DIFFERENT_ARRAY_SIZE", "ALL-INDICES-DIFFERENT-ARRAY-SIZE"),
    M("ALL_INDICES_SAME_ARRAY_SIZE", "ALL-INDICES-SAME-ARRAY-SIZE"),
    M("INHERITED_FROM_ARRAY_ELEMENT_TYPE_SIZE", "INHERITED-FROM-ARRAY-ELEMENT-TYPE-SIZE") >>,
  ArraySizeSemantics |-> <<
    M("FIXED_SIZE", "FIXED-SIZE"), M("VARIABLE_SIZE", "VARIABLE-SIZE") >>,
  ByteOrder |-> <<
    M("BIG_ENDIAN", "MOST-SIGNIFICANT-BYTE-FIRST"), M("LITTLE_ENDIAN", "MOST-SIGNIFICANT-BYTE-LAST"),
    M("OPAQUE", "OPAQUE") >>,
  CalibrationAxisCategory |-> <<
    M("COM_AXIS", "COM-AXIS"), M("CURVE_AXIS", "CURVE-AXIS"), M("FIX_AXIS", "FIX-AXIS"), M("RES_AXIS", "RES-AXIS"),
    M("STD_AXIS", "STD-AXIS") >>,
  DataFilterType |-> <<
    M("ALWAYS", "ALWAYS"), M("MASKED_NEW_DIFFERS_MASKED_OLD", "MASKED-NEW-DIFFERS-MASKED-OLD"),
    M("MASKED_NEW_DIFFERS_X", "MASKED-NEW-DIFFERS-X"), M("MASKED_NEW_EQUALS_X", "MASKED-NEW-EQUALS-X"),
    M("NEVER", "NEVER"), M("NEW_IS_OUTSIDE", "NEW-IS-OUTSIDE"), M("NEW_IS_WITHIN", "NEW-IS-WITHIN"),
    M("ONE_EVERY_N", "ONE-EVERY-N") >>,
  DataTransformationErrorHandling |-> <<
    M("NO_TRANSFORMER_ERROR_HANDLING", "NO-TRANSFORMER-ERROR-HANDLING"),
    M("TRANSFORMER_ERROR_HANDLING", "TRANSFORMER-ERROR-HANDLING") >>,
  DataTransformationStatusForwarding |-> <<
    M("NO_TRANSFORMER_STATUS_FORWARDING", "NO-TRANSFORMER-STATUS-FORWARDING"),
    M("TRANSFORMER_STATUS_FORWARDING", "TRANSFORMER-STATUS-FORWARDING") >>,
  DisplayPresentation |-> <<
    M("CONTINUOUS", "PRESENTATION-CONTINUOUS"), M("DISCRETE", "PRESENTATION-DISCRETE") >>,
  EmphasisFont |-> <<
    M("DEFAULT", "DEFAULT"), M("MONO", "MONO") >>,
  EmphasisType |-> <<
    M("BOLD", "BOLD"), M("BOLDITALIC", "BOLDITALIC"), M("ITALIC", "ITALIC"), M("PLAIN", "PLAIN") >>,
  Float |-> <<
    M("FLOAT", "FLOAT"), M("NO_FLOAT", "NO-FLOAT") >>,
  HandleInvalid |-> <<
    M("DONT_INVALIDATE", "DONT-INVALIDATE"), M("EXTERNAL_REPLACEMENT", "EXTERNAL-REPLACEMENT"), M("KEEP", "KEEP"),
    M("REPLACE", "REPLACE") >>,
  HandleOutOfRange |-> <<
    M("DEFAULT", "DEFAULT"), M("EXTERNAL_REPLACEMENT", "EXTERNAL-REPLACEMENT"), M("IGNORE", "IGNORE"),
    M("INVALID", "INVALID"), M("NONE", "NONE"), M("SATURATE", "SATURATE") >>,
  HandleOutOfRangeStatus |-> <<
    M("INDICATE", "INDICATE"), M("SILENT", "SILENT") >>,
  HandleTimeout |-> <<
    M("NONE", "NONE"), M("REPLACE", "REPLACE"),
    M("REPLACE_BY_TIMEOUT_SUBSTITUTION_VALUE", "REPLACE-BY-TIMEOUT-SUBSTITUTION-VALUE") >>,
  IdentifiableSubTypes |-> <<
    M("ABSTRACT_IMPLEMENTATION_DATA_TYPE", "ABSTRACT-IMPLEMENTATION-DATA-TYPE"),
    M("ABSTRACT_IMPLEMENTATION_DATA_TYPE_ELEMENT", "ABSTRACT-IMPLEMENTATION-DATA-TYPE-ELEMENT"),
    M("ABSTRACT_PROVIDED_PORT_PROTOTYPE", "ABSTRACT-PROVIDED-PORT-PROTOTYPE"),
    M("ABSTRACT_REQUIRED_PORT_PROTOTYPE", "ABSTRACT-REQUIRED-PORT-PROTOTYPE"),
    M("APPLICATION_ARRAY_DATA_TYPE", "APPLICATION-ARRAY-DATA-TYPE"),
    M("APPLICATION_ARRAY_ELEMENT", "APPLICATION-ARRAY-ELEMENT"),
    M("APPLICATION_COMPOSITE_DATA_TYPE", "APPLICATION-COMPOSITE-DATA-TYPE"),
    M("APPLICATION_COMPOSITE_ELEMENT_DATA_PROTOTYPE", "APPLICATION-COMPOSITE-ELEMENT-DATA-PROTOTYPE"),
    M("APPLICATION_DATA_TYPE", "APPLICATION-DATA-TYPE"),
    M("APPLICATION_DEFERRED_DATA_TYPE", "APPLICATION-DEFERRED-DATA-TYPE"),
    M("APPLICATION_ERROR", "APPLICATION-ERROR"),
    M("APPLICATION_PRIMITIVE_DATA_TYPE", "APPLICATION-PRIMITIVE-DATA-TYPE"),
    M("APPLICATION_RECORD_DATA_TYPE", "APPLICATION-RECORD-DATA-TYPE"),
    M("APPLICATION_RECORD_ELEMENT", "APPLICATION-RECORD-ELEMENT"),
    M("APPLICATION_SW_COMPONENT_TYPE", "APPLICATION-SW-COMPONENT-TYPE"), M("AR_PACKAGE", "AR-PACKAGE"),
    M("ARGUMENT_DATA_PROTOTYPE", "ARGUMENT-DATA-PROTOTYPE"),
    M("ASYNCHRONOUS_SERVER_CALL_POINT", "ASYNCHRONOUS-SERVER-CALL-POINT"),
    M("ASYNCHRONOUS_SERVER_CALL_RESULT_POINT", "ASYNCHRONOUS-SERVER-CALL-RESULT-POINT"),
    M("ASYNCHRONOUS_SERVER_CALL_RETURNS_EVENT", "ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT"),
    M("AUTOSAR_DATA_PROTOTYPE", "AUTOSAR-DATA-PROTOTYPE"), M("AUTOSAR_DATA_TYPE", "AUTOSAR-DATA-TYPE"),
    M("BACKGROUND_EVENT", "BACKGROUND-EVENT"), M("BSW_MODULE_ENTRY", "BSW-MODULE-ENTRY"),
    M("CLIENT_SERVER_INTERFACE", "CLIENT-SERVER-INTERFACE"), M("CLIENT_SERVER_OPERATION", "CLIENT-SERVER-OPERATION"),
    M("COMPOSITION_SW_COMPONENT_TYPE", "COMPOSITION-SW-COMPONENT-TYPE"), M("COMPU_METHOD", "COMPU-METHOD"),
    M("CONSTANT_SPECIFICATION", "CONSTANT-SPECIFICATION"), M("DATA_CONSTR", "DATA-CONSTR"),
    M("DATA_PROTOTYPE", "DATA-PROTOTYPE"), M("DATA_RECEIVE_ERROR_EVENT", "DATA-RECEIVE-ERROR-EVENT"),
    M("DATA_RECEIVED_EVENT", "DATA-RECEIVED-EVENT"), M("DATA_SEND_COMPLETED_EVENT", "DATA-SEND-COMPLETED-EVENT"),
    M("DATA_TYPE_MAPPING_SET", "DATA-TYPE-MAPPING-SET"),
    M("DATA_WRITE_COMPLETED_EVENT", "DATA-WRITE-COMPLETED-EVENT"),
    M("E2E_PROFILE_COMPATIBILITY_PROPS", "E-2-E-PROFILE-COMPATIBILITY-PROPS"), M("EXCLUSIVE_AREA", "EXCLUSIVE-AREA"),
    M("EXCLUSIVE_AREA_NESTING_ORDER", "EXCLUSIVE-AREA-NESTING-ORDER"),
    M("EXTERNAL_TRIGGER_OCCURRED_EVENT", "EXTERNAL-TRIGGER-OCCURRED-EVENT"),
    M("IMPLEMENTATION_DATA_TYPE", "IMPLEMENTATION-DATA-TYPE"),
    M("IMPLEMENTATION_DATA_TYPE_ELEMENT", "IMPLEMENTATION-DATA-TYPE-ELEMENT"), M("INIT_EVENT", "INIT-EVENT"),
    M("INTERNAL_TRIGGER_OCCURRED_EVENT", "INTERNAL-TRIGGER-OCCURRED-EVENT"),
    M("INTERNAL_TRIGGERING_POINT", "INTERNAL-TRIGGERING-POINT"), M("MODE_DECLARATION", "MODE-DECLARATION"),
    M("MODE_DECLARATION_GROUP", "MODE-DECLARATION-GROUP"),
    M("MODE_DECLARATION_GROUP_PROTOTYPE", "MODE-DECLARATION-GROUP-PROTOTYPE"),
    M("MODE_SWITCH_INTERFACE", "MODE-SWITCH-INTERFACE"), M("MODE_SWITCH_POINT", "MODE-SWITCH-POINT"),
    M("MODE_SWITCHED_ACK_EVENT", "MODE-SWITCHED-ACK-EVENT"), M("NV_DATA_INTERFACE", "NV-DATA-INTERFACE"),
    M("OPERATION_INVOKED_EVENT", "OPERATION-INVOKED-EVENT"), M("P_PORT_PROTOTYPE", "P-PORT-PROTOTYPE"),
    M("PARAMETER_DATA_PROTOTYPE", "PARAMETER-DATA-PROTOTYPE"), M("PARAMETER_INTERFACE", "PARAMETER-INTERFACE"),
    M("PHYSICAL_DIMENSION", "PHYSICAL-DIMENSION"), M("PORT_PROTOTYPE", "PORT-PROTOTYPE"),
    M("PR_PORT_PROTOTYPE", "PR-PORT-PROTOTYPE"), M("R_PORT_PROTOTYPE", "R-PORT-PROTOTYPE"),
    M("RUNNABLE_ENTITY", "RUNNABLE-ENTITY"), M("SENDER_RECEIVER_INTERFACE", "SENDER-RECEIVER-INTERFACE"),
    M("SW_ADDR_METHOD", "SW-ADDR-METHOD"), M("SW_BASE_TYPE", "SW-BASE-TYPE"),
    M("SW_COMPONENT_PROTOTYPE", "SW-COMPONENT-PROTOTYPE"), M("SWC_IMPLEMENTATION", "SWC-IMPLEMENTATION"),
    M("SWC_INTERNAL_BEHAVIOR", "SWC-INTERNAL-BEHAVIOR"),
    M("SWC_MODE_MANAGER_ERROR_EVENT", "SWC-MODE-MANAGER-ERROR-EVENT"),
    M("SWC_MODE_SWITCH_EVENT", "SWC-MODE-SWITCH-EVENT"), M("TIMING_EVENT", "TIMING-EVENT"),
    M("TRANSFORMER_HARD_ERROR_EVENT", "TRANSFORMER-HARD-ERROR-EVENT"), M("TRIGGER", "TRIGGER"), M("UNIT", "UNIT"),
    M("VARIABLE_ACCESS", "VARIABLE-ACCESS"), M("VARIABLE_DATA_PROTOTYPE", "VARIABLE-DATA-PROTOTYPE") >>,
  IntervalType |-> <<
    M("CLOSED", "CLOSED"), M("OPEN", "OPEN") >>,
  KeepWithPrevious |-> <<
    M("KEEP", "KEEP"), M("NO_KEEP", "NO-KEEP") >>,
  Language |-> <<
    M("AA", "AA"), M("AB", "AB"), M("AF", "AF"), M("AM", "AM"), M("AR", "AR"), M("AS", "AS"), M("AY", "AY"),
    M("AZ", "AZ"), M("BA", "BA"), M("BE", "BE"), M("BG", "BG"), M("BH", "BH"), M("BI", "BI"), M("BN", "BN"),
    M("BO", "BO"), M("BR", "BR"), M("CA", "CA"), M("CO", "CO"), M("CS", "CS"), M("CY", "CY"), M("DA", "DA"),
    M("DE", "DE"), M("DZ", "DZ"), M("EL", "EL"), M("EN", "EN"), M("EO", "EO"), M("ES", "ES"), M("ET", "ET"),
    M("EU", "EU"), M("FA", "FA"), M("FI", "FI"), M("FJ", "FJ"), M("FO", "FO"), M("FOR_ALL", "FOR-ALL"),
    M("FR", "FR"), M("FY", "FY"), M("GA", "GA"), M("GD", "GD"), M("GL", "GL"), M("GN", "GN"), M("GU", "GU"),
    M("HA", "HA"), M("HI", "HI"), M("HR", "HR"), M("HU", "HU"), M("HY", "HY"), M("IA", "IA"), M("IE", "IE"),
    M("IK", "IK"), M("IN", "IN"), M("IS", "IS"), M("IT", "IT"), M("IW", "IW"), M("JA", "JA"), M("JI", "JI"),
    M("JW", "JW"), M("KA", "KA"), M("KK", "KK"), M("KL", "KL"), M("KM", "KM"), M("KN", "KN"), M("KO", "KO"),
    M("KS", "KS"), M("KU", "KU"), M("KY", "KY"), M("LA", "LA"), M("LN", "LN"), M("LO", "LO"), M("LT", "LT"),
    M("LV", "LV"), M("MG", "MG"), M("MI", "MI"), M("MK", "MK"), M("ML", "ML"), M("MN", "MN"), M("MO", "MO"),
    M("MR", "MR"), M("MS", "MS"), M("MT", "MT"), M("MY", "MY"), M("NA", "NA"), M("NE", "NE"), M("NL", "NL"),
    M("NO", "NO"), M("OC", "OC"), M("OM", "OM"), M("OR", "OR"), M("PA", "PA"), M("PL", "PL"), M("PS", "PS"),
    M("PT", "PT"), M("QU", "QU"), M("RM", "RM"), M("RN", "RN"), M("RO", "RO"), M("RU", "RU"), M("RW", "RW"),
    M("SA", "SA"), M("SD", "SD"), M("SG", "SG"), M("SH", "SH"), M("SI", "SI"), M("SK", "SK"), M("SL", "SL"),
    M("SM", "SM"), M("SN", "SN"), M("SO", "SO"), M("SQ", "SQ"), M("SR", "SR"), M("SS", "SS"), M("ST", "ST"),
    M("SU", "SU"), M("SV", "SV"), M("SW", "SW"), M("TA", "TA"), M("TE", "TE"), M("TG", "TG"), M("TH", "TH"),
    M("TI", "TI"), M("TK", "TK"), M("TL", "TL"), M("TN", "TN"), M("TO", "TO"), M("TR", "TR"), M("TS", "TS"),
    M("TT", "TT"), M("TW", "TW"), M("UK", "UK"), M("UR", "UR"), M("UZ", "UZ"), M("VI", "VI"), M("VO", "VO"),
    M("WO", "WO"), M("XH", "XH"), M("YO", "YO"), M("ZH", "ZH"), M("ZU", "ZU") >>,
  ModeActivationKind |-> <<
    M("ON_ENTRY", "ON-ENTRY"), M("ON_EXIT", "ON-EXIT"), M("ON_TRANSITION", "ON-TRANSITION") >>,
  ModeErrorReactionPolicy |-> <<
    M("DEFAULT_MODE", "DEFAULT-MODE"), M("LAST_MODE", "LAST-MODE") >>,
  Monotony |-> <<
    M("DECREASING", "DECREASING"), M("INCREASING", "INCREASING"), M("MONOTONOUS", "MONOTONOUS"),
    M("NO_MONOTONY", "NO-MONOTONY"), M("STRICTLY_DECREASING", "STRICTLY-DECREASING"),
    M("STRICTLY_INCREASING", "STRICTLY-INCREASING"), M("STRICT_MONOTONOUS", "STRICT-MONOTONOUS") >>,
  PageBreak |-> <<
    M("BREAK", "BREAK"), M("NO_BREAK", "NO-BREAK") >>,
  PageWide |-> <<
    M("NO_PGWIDE", "NO-PGWIDE"), M("PGWIDE", "PGWIDE") >>,
  ReentrancyLevel |-> <<
    M("MULTICORE_REENTRANT", "MULTICORE-REENTRANT"), M("NON_REENTRANT", "NON-REENTRANT"),
    M("SINGLE_CORE_REENTRANT", "SINGLE-CORE-REENTRANT") >>,
  RteApiReturnValueProvision |-> <<
    M("RETURN_VALUE_PROVIDED", "RETURN-VALUE-PROVIDED"), M("NO_RETURN_VALUE_PROVIDED", "NO-RETURN-VALUE-PROVIDED") >>,
  ScaleConstraintValidity |-> <<
    M("NOT_AVAILABLE", "NOT-AVAILABLE"), M("NOT_DEFINED", "NOT-DEFINED"), M("NOT_VALID", "NOT-VALID"),
    M("VALID", "VALID") >>,
  ServerArgImplPolicy |-> <<
    M("USE_ARGUMENT_TYPE", "USE-ARGUMENT-TYPE"), M("USE_ARRAY_BASED_TYPE", "USE-ARRAY-BASE-TYPE"),
    M("USE_VOID", "USE-VOID") >>,
  ServiceKind |-> <<
    M("ANY_STANDARDIZED", "ANY-STANDARDIZED"), M("BASIC_SOFTWARE_MODE_MANAGER", "BASIC-SOFTWARE-MODE-MANAGER"),
    M("COM_MANAGER", "COM-MANAGER"), M("CRYPTO_KEY_MANAGEMENT", "CRYPTO-KEY-MANAGEMENT"),
    M("CRYPTO_SERVICE_MANAGER", "CRYPTO-SERVICE-MANAGER"), M("DEFAULT_ERROR_TRACER", "DEFAULT-ERROR-TRACER"),
    M("DEVELOPMENT_ERROR_TRACER", "DEVELOPMENT-ERROR-TRACER"),
    M("DIAGNOSTIC_COMMUNICATION_MANAGER", "DIAGNOSTIC-COMMUNICATION-MANAGER"),
    M("DIAGNOSTIC_EVENT_MANAGER", "DIAGNOSTIC-EVENT-MANAGER"),
    M("DIAGNOSTIC_LOG_AND_TRACE", "DIAGNOSTIC-LOG-AND-TRACE"), M("ECU_MANAGER", "ECU-MANAGER"),
    M("ERROR_TRACER", "ERROR-TRACER"), M("FUNCTION_INHIBITION_MANAGER", "FUNCTION-INHIBITION-MANAGER"),
    M("HARDWARE_TEST_MANAGER", "HARDWARE-TEST-MANAGER"),
    M("INTRUSION_DETECTION_SECURITY_MANAGEMENT", "INTRUSION-DETECTION-SECURITY-MANAGEMENT"),
    M("J1939_DCM", "J-1939-DCM"), M("J1939_REQUEST_MANAGER", "J-1939-REQUEST-MANAGER"),
    M("NON_VOLATILE_RAM_MANAGER", "NON-VOLATILE-RAM-MANAGER"), M("OPERATING_SYSTEM", "OPERATING-SYSTEM"),
    M("SECURE_ON_BOARD_COMMUNICATION", "SECURE-ON-BOARD-COMMUNICATION"),
    M("SYNC_BASE_TIME_MANAGER", "SYNC-BASE-TIME-MANAGER"), M("V2X_FACILITIES", "V-2-X-FACILITIES"),
    M("V2X_MANAGEMENT", "V-2-X-MANAGEMENT"), M("VENDOR_SPECIFIC", "VENDOR-SPECIFIC"),
    M("WATCH_DOG_MANAGER", "WATCH-DOG-MANAGER") >>,
  SupportBufferLocking |-> <<
    M("DOES_NOT_SUPPORT_BUFFER_LOCKING", "DOES-NOT-SUPPORT-BUFFER-LOCKING"),
    M("SUPPORTS_BUFFER_LOCKING", "SUPPORTS-BUFFER-LOCKING") >>,
  SwCalibrationAccess |-> <<
    M("NOT_ACCESSIBLE", "NOT-ACCESSIBLE"), M("READ_ONLY", "READ-ONLY"), M("READ_WRITE", "READ-WRITE") >>,
  SwImplPolicy |-> <<
    M("CONST", "CONST"), M("FIXED", "FIXED"), M("MEASUREMENT_POINT", "MEASUREMENT-POINT"), M("QUEUED", "QUEUED"),
    M("STANDARD", "STANDARD") >>,
  TransmissionMode |-> <<
    M("CYCLIC", "CYCLIC"), M("CYCLIC_AND_ON_CHANGE", "CYCLIC-AND-ON-CHANGE"), M("TRIGGERED", "TRIGGERED") >>,
  VariableAccessScope |-> <<
    M("COMMUNICATION_INTER_ECU", "COMMUNICATION-INTER-ECU"),
    M("COMMUNICATION_INTRA_PARTITION", "COMMUNICATION-INTRA-PARTITION"),
    M("INTER_PARTITION_INTRA_ECU", "INTER-PARTITION-INTRA-ECU") >>
]
(* additional texts the schema defines for a member (older spelling); they are read, never written *)
Aliases == << [e |-> "CalibrationAxisCategory", t |-> "COM_AXIS", n |-> "COM_AXIS"],
              [e |-> "CalibrationAxisCategory", t |-> "CURVE_AXIS", n |-> "CURVE_AXIS"],
              [e |-> "CalibrationAxisCategory", t |-> "FIX_AXIS", n |-> "FIX_AXIS"],
              [e |-> "CalibrationAxisCategory", t |-> "RES_AXIS", n |-> "RES_AXIS"],
              [e |-> "CalibrationAxisCategory", t |-> "STD_AXIS", n |-> "STD_AXIS"] >>
EnumText(e, n) == EnumTab[e][First(EnumTab[e], LAMBDA r : r.n = n)].t
=============================================================================
