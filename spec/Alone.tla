------------------------------- MODULE Alone -------------------------------
(* An element on its own: written and read without a document around it, it *)
(* is the same XML and the same element as at its place in a document.      *)
(*   TagsOf(c)  the tags an element of class c has at its places            *)
(*   NoText     classes that are only written as part of another element    *)
(*   Asked      classes whose elements go by several tags, so that the tag  *)
(*              is given when writing                                       *)
(*   NoRead     [c, t]: only read as part of another element                *)
(*   ByType     classes that are asked for by the name of the type when     *)
(*              read, as their tag does not tell                            *)
EXTENDS ArxmlSchema
NoText == {"CompuConst", "ExclusiveArea", "ExternalTriggeringPointIdent", "LanguageOverviewParagraph", "ModeAccessPointIdent",
           "PModeGroupInAtomicSwcInstanceRef", "POperationInAtomicSwcInstanceRef", "PTriggerInAtomicSwcTypeInstanceRef",
           "ROperationInAtomicSwcInstanceRef", "RTriggerInAtomicSwcInstanceRef", "RVariableInAtomicSwcInstanceRef", "SwDataDefProps", "ValueGroup"}
Asked == {"DataFilter", "AutosarEngineeringObject", "Break", "DocumentationBlock", "EmphasisText", "IndexEntry", "MultilanguageLongName",
          "MultiLanguageOverviewParagraph", "SingleLanguageUnitNames", "Superscript", "Subscript", "TechnicalTerm", "Computation", "SymbolProps",
          "VariableDataPrototype", "ParameterDataPrototype", "ModeErrorBehavior", "ModeDeclarationGroupPrototype",
          "PortInCompositionTypeInstanceRef_P", "PortInCompositionTypeInstanceRef_R", "RModeInAtomicSwcInstanceRef",
          "ArVariableInImplementationDataInstanceRef", "AutosarVariableRef", "VariableAccess", "AutosarParameterRef"}
NoRead == {<<"Computation", "COMPU-PHYS-TO-INTERNAL">>, <<"DataFilter", "FILTER">>, <<"DocumentationBlock", "INTRODUCTION">>,
           <<"ModeDeclarationGroupPrototype", "MODE-GROUP">>, <<"Package", "AR-PACKAGE">>,
           <<"PortInCompositionTypeInstanceRef_P", "P-PORT-IN-COMPOSITION-INSTANCE-REF">>,
           <<"PortInCompositionTypeInstanceRef_R", "R-PORT-IN-COMPOSITION-INSTANCE-REF">>,
           <<"RModeInAtomicSwcInstanceRef", "MODE-IREF">>, <<"VariableAccess", "REPLACE-WITH">>, <<"SingleLanguageUnitNames", "UNIT-DISPLAY-NAME">>}
(* references that stand on their own: [class, tag] *)
LoneRefs == <<[c |-> "SwBaseTypeRef", t |-> "BASE-TYPE-REF", asked |-> ""], [c |-> "PhysicalDimensionRef", t |-> "PHYSICAL-DIMENSION-REF", asked |-> ""],
              [c |-> "ApplicationDataTypeRef", t |-> "APPLICATION-DATA-TYPE-REF", asked |-> "APPLICATION-DATA-TYPE-REF"],
              [c |-> "ConstantRef", t |-> "CONSTANT-REF", asked |-> "CONSTANT-REF"]>>
ByType == {"ApplicationArrayElement", "ParameterDataPrototype", "VariableDataPrototype"}
(* tags of elements the library has no place for, but knows *)
MoreTags == [ModeDeclarationGroupPrototype |-> {"MODE-DECLARATION-GROUP-PROTOTYPE", "PROCESS-STATE-MACHINE"},
             VariableDataPrototype |-> {"BULK-NV-BLOCK", "RAM-BLOCK"}, ParameterDataPrototype |-> {"ROM-BLOCK"}, DataFilter |-> {"DATA-FILTER"},
             MultilanguageLongName |-> {"LABEL"}, MultiLanguageOverviewParagraph |-> {"ITEM-LABEL", "REASON"},
             AutosarEngineeringObject |-> {"ARTIFACT-DESCRIPTOR"}, SingleLanguageUnitNames |-> {"PRM-UNIT"}, SymbolProps |-> {"EVENT-SYMBOL-PROPS"},
             AutosarVariableRef |-> {"READ-NV-DATA", "USED-DATA-ELEMENT", "VARIABLE-INSTANCE"}, AutosarParameterRef |-> {"PARAMETER-INSTANCE", "AR-PARAMETER"}]
TagIn(fl, c) == IF fl.k = "any" THEN AltTag(fl.x, c) ELSE fl.t
TagSet(c) == UNION {UNION {IF c \in KidsOf(Fields(p)[i]) THEN {TagIn(Fields(p)[i], c)} ELSE {} : i \in 1..Len(Fields(p))} : p \in DOMAIN ClassTab}
             \cup (IF c \in RootClasses THEN {RootTag(c)} ELSE {}) \cup (IF c = "ModeRequestTypeMap" THEN {"MODE-REQUEST-TYPE-MAP"} ELSE {}) \cup (IF c \in DOMAIN MoreTags THEN MoreTags[c] ELSE {})
Lone == DOMAIN ClassTab \ NoText
TagsOf == TLCEval([c \in Lone |-> TLCEval(SetToSeq(TagSet(c)))])
(* tags only the writer knows *)
WriteOnly == {"ARTIFACT-DESCRIPTOR", "PARAMETER-INSTANCE", "AR-PARAMETER", "READ-NV-DATA", "USED-DATA-ELEMENT", "VARIABLE-INSTANCE",
              "PROCESS-STATE-MACHINE", "ITEM-LABEL", "REASON", "PRM-UNIT", "EVENT-SYMBOL-PROPS"}
Reads(c, t) == IF <<c, t>> \in NoRead \/ t \in WriteOnly THEN "no" ELSE IF c \in ByType THEN c ELSE "tag"
=============================================================================
