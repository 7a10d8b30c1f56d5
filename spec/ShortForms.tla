----------------------------- MODULE ShortForms -----------------------------
(* The short forms in which constructors take their arguments.              *)
(*                                                                          *)
(* An element can be described in full (every list a list, every sub-       *)
(* element an object, every reference a reference object) or with shorter   *)
(* arguments; both must give the same element.  Forms of the argument for   *)
(* one field holding the values vs:                                         *)
(*   full   as it is                                                        *)
(*   one    the single value instead of a list of one                       *)
(*   tuple  a tuple instead of a list                                       *)
(*   text   references by their path                                        *)
(*   text1  a single reference by its path instead of a list                *)
(*   inner  sub-elements by the single thing they hold                      *)
(*   inner1 the same, without the list                                      *)
(*   pair   a multi-language text by (language, text)                       *)
(*   plain  a multi-language text in every language by its text             *)
(*   parts  a sub-element by the tuple of its attributes (list of these)    *)
(*   kin    a reference object of another class with a fitting destination  *)
(*   alien  a reference object of another class and a destination that does *)
(*          not fit                                                         *)
(*   more   one value more than there is room for                           *)
(*   odd    something that is no element at all (odds: in a list)           *)
(* Outcome: "kept" the element is exactly the one described in full,        *)
(* "err" refused.  Nothing is ever ignored.                                 *)
EXTENDS ArxmlSchema

(* constructors that take lists only *)
Annotated(c, a) == a = "annotations" /\ c # "SwDataDefPropsConditional"
ListOnly(c, a) == \/ Annotated(c, a)
                  \/ a \in {"numerator", "denominator", "rules", "sub_elements", "packages", "scale_constrs"}
                  \/ <<c, a>> = <<"Package", "elements">>
NoText == {<<"SwAxisCont", "unit_ref">>, <<"SwValueCont", "unit_ref">>, <<"AutosarVariableRef", "local_variable_ref">>,
           <<"ArVariableInImplementationDataInstanceRef", "root_variable_data_prototype_ref">>,
           <<"PortInCompositionTypeInstanceRef_P", "component_ref">>, <<"PortInCompositionTypeInstanceRef_R", "component_ref">>}
(* arguments that take reference objects of their own class only *)
Strict == NoText \cup {<<"Unit", "physical_dimension_ref">>, <<"ApplicationRecordElement", "type_ref">>,
  <<"ApplicationArrayElement", "type_ref">>, <<"ConstantReference", "constant_ref">>, <<"NonqueuedSenderComSpec", "data_element_ref">>,
  <<"QueuedSenderComSpec", "data_element_ref">>, <<"QueuedReceiverComSpec", "data_element_ref">>,
  <<"NonqueuedReceiverComSpec", "data_element_ref">>, <<"ProvidePortPrototype", "port_interface_ref">>,
  <<"RequirePortPrototype", "port_interface_ref">>, <<"PRPortPrototype", "port_interface_ref">>,
  <<"PortInCompositionTypeInstanceRef_P", "port_ref">>, <<"PortInCompositionTypeInstanceRef_R", "port_ref">>,
  <<"SwComponentPrototype", "type_ref">>, <<"PassThroughSwConnector", "provide_port">>, <<"PassThroughSwConnector", "require_port">>,
  <<"DelegationSwConnector", "outer_port">>, <<"ArVariableInImplementationDataInstanceRef", "port_prototype_ref">>,
  <<"ArVariableInImplementationDataInstanceRef", "target_data_prototype_ref">>}
ListText == {<<"ClientServerOperation", "possible_error_refs">>, <<"SwcInternalBehavior", "data_type_mappings">>}
(* the class of a sub-element given by the one thing it holds: which attribute *)
Holds == [CompuConst |-> "value", SwDataDefProps |-> "variants", SingleLanguageUnitNames |-> "parts",
          TransmissionAcknowledgementRequest |-> "timeout", ModeSwitchedAckRequest |-> "timeout",
          ExclusiveAreaRefConditional |-> "exclusive_area", ModeDeclaration |-> "name"]
InnerAt == {<<"CompuScale", "inverse_value">>, <<"Computation", "default_value">>, <<"Unit", "display_name">>,
            <<"RunnableEntity", "can_enter_leave">>, <<"RunnableEntity", "runs_insides">>,
            <<"ModeDeclarationGroup", "mode_declarations">>}
Inner(c, fl) == fl.k = "sub" /\ fl.x \in DOMAIN Holds /\ (<<c, fl.a>> \in InnerAt \/ fl.a \in
                   {"sw_data_def_props", "transmission_acknowledge", "mode_switched_ack"})
Languages == [MultiLanguageOverviewParagraph |-> "LanguageOverviewParagraph", MultilanguageLongName |-> "LanguageLongName",
              MultiLanguageParagraph |-> "LanguageParagraph", MultiLanguageVerbatim |-> "LanguageVerbatim"]
Lingual(c, fl) == fl.k = "sub" /\ fl.a \in {"desc", "label"} /\ fl.x \in DOMAIN Languages /\ (fl.a = "label" => c = "ValueGroup")
                  /\ c \notin {"CompuScale", "ScaleConstraint"}
(* packages get their contents later *)
NoArg(c, fl) == c = "Package" /\ fl.a \in {"elements", "packages"}

Forms(c, fl) == IF NoArg(c, fl) THEN {} ELSE
  (IF IsList(fl) /\ ~ListOnly(c, fl.a) THEN {"one"} ELSE {}) \cup
  (IF IsList(fl) THEN {"tuple"} ELSE {}) \cup
  (IF fl.k = "ref" THEN {"kin", "alien"} ELSE {}) \cup
  (IF fl.k = "ref" /\ ~IsList(fl) THEN {"text"} ELSE {}) \cup
  (IF fl.k = "ref" /\ IsList(fl) THEN {"text1"} ELSE {}) \cup
  (IF Inner(c, fl) THEN (IF IsList(fl) THEN {"inner"} \cup (IF fl.x = "ModeDeclaration" THEN {} ELSE {"inner1"})
                         ELSE {"inner"}) ELSE {}) \cup
  (IF <<c, fl.a>> = <<"ModeDeclarationGroup", "mode_declarations">> THEN {"parts"} ELSE {}) \cup
  (IF Lingual(c, fl) THEN {"pair"} \cup (IF fl.a = "desc" THEN {"plain"} ELSE {"inner"}) ELSE {}) \cup
  (IF c \in DOMAIN Languages /\ fl.a = "elements" THEN {"one", "pair1"} ELSE {}) \cup
  (IF ~IsList(fl) /\ fl.k \in {"sub", "any", "ref", "enum"} THEN {"more"} ELSE {}) \cup
  (IF fl.k \in {"sub", "any", "ref", "enum"} THEN {"odd"} \cup (IF IsList(fl) THEN {"odds"} ELSE {}) ELSE {})

(* which outcomes are right: "may" either kept or refused *)
Outcome(c, fl, form) ==
  CASE form \in {"one", "inner", "inner1", "pair", "pair1", "plain", "parts", "full"} -> "kept"
    [] form = "text" -> IF Len(RefTab[fl.x]) = 1 /\ <<c, fl.a>> \notin NoText THEN "kept" ELSE "may"
    [] form = "text1" -> IF <<c, fl.a>> \in ListText THEN "kept" ELSE "may"
    [] form = "kin" -> IF IsList(fl) \/ <<c, fl.a>> \in Strict THEN "may" ELSE "kept"
    [] form = "alien" \/ (form = "more" /\ fl.m = "2") -> "err"
    [] OTHER -> "may"

-----------------------------------------------------------------------------
(* values that can be given in a form *)
Texts(b) == <<Atom("=text", "words " \o Str(b), ""), Atom("=text", "0", "")>>
Only1(c, a, v) == [Empty(c) EXCEPT !.f[IdxOf(c, a)] = <<v>>]
InLang(k, lang, t) == [Empty(k) EXCEPT !.f[IdxOf(k, "language")] = <<Atom("=enum", lang, "")>>,
                                     !.f[IdxOf(k, "parts")] = <<t>>]
Multi(m, lang, t) == Only1(m, "elements", InLang(Languages[m], lang, t))
Ones(fl, b) == SelectSeq(Values(fl, b, 0), LAMBDA vs : Len(vs) = 1)
Plain(fl, vs) == IF fl.k = "any" THEN SelectSeq(vs, LAMBDA s : s[1].c \in {"=text", "=num"}) ELSE vs
LanguageOf(i) == LET t == EnumTab.Language IN t[(i % Len(t)) + 1].n
GivenIn(c, fl, form, b) ==
  CASE form = "one" -> (IF c \in DOMAIN Languages THEN [i \in 1..3 |-> <<Small(Languages[c], Next1(b, i))>>] \o <<<<Full(Languages[c], b, 0)>>>>
                        ELSE IF fl.a = "parts" /\ c # "SingleLanguageUnitNames" THEN Plain(fl, Ones(fl, b))
                        ELSE Ones(fl, b))
    [] form = "tuple" -> Values(fl, b, 0)
    [] form \in {"text", "kin", "alien", "text1"} -> Ones(fl, b)
    [] form \in {"inner", "inner1"} /\ Lingual(c, fl) -> [i \in 1..3 |-> <<Multi(fl.x, LanguageOf(b + i), Texts(b)[1])>>]
    [] form \in {"inner", "inner1"} ->
         LET a == Holds[fl.x]
             g == Fields(fl.x)[IdxOf(fl.x, a)]
             ins == Plain(g, Ones(g, b)) \o (IF g.k = "text" /\ fl.x # "ModeDeclaration" THEN <<<<Atom("=text", "", "")>>>> ELSE <<>>)
             S(i) == Only1(fl.x, a, ins[i][1])
         IN [i \in 1..Len(ins) |-> <<S(i)>>] \o
            (IF IsList(fl) /\ form = "inner" THEN <<[i \in 1..2 |-> Only1(fl.x, a, OneValue(g, b + 5 * i))]>> ELSE <<>>)
    [] form = "pair" -> [i \in 1..4 |-> <<Multi(fl.x, LanguageOf(b + i), Texts(b)[1 + (i % 2)])>>]
    [] form = "pair1" -> [i \in 1..4 |-> <<InLang(Languages[c], LanguageOf(b + i), Texts(b)[1 + (i % 2)])>>]
    [] form = "plain" -> [i \in 1..2 |-> <<Multi(fl.x, "FOR_ALL", Texts(b)[i])>>]
    [] form = "parts" -> LET D(i) == [Empty(fl.x) EXCEPT !.f[IdxOf(fl.x, "name")] = <<Atom("=text", "Mode" \o Str(b + i), "")>>,
                                                         !.f[IdxOf(fl.x, "value")] = <<Atom("=num", Str(i), "")>>]
                         IN <<<<D(0)>>, <<D(2), D(1)>>, <<D(1), D(0), D(2)>>>>
    [] form \in {"odd", "odds"} -> <<SmallOf(fl, b)>>
    [] form = "more" -> LET one == Ones(fl, b) IN <<[i \in 1..(IF fl.m = "2" THEN 3 ELSE 2) |-> one[1 + (i % Len(one))][1]]>>
    [] OTHER -> <<>>

(* reference classes that can have the destination d, other than the one asked for; and one with a destination that does not fit *)
Kin(fl, d) == SetToSeq({k \in DOMAIN RefTab : k # fl.x /\ \E j \in 1..Len(RefTab[k]) : RefTab[k][j] = d})
Alien(fl) == LET out == SetToSeq({k \in DOMAIN RefTab : \A d \in Elems(RefTab[k]) : d \notin Elems(RefTab[fl.x])}) IN out[1]

(* the elements to describe: c with one argument in a short form, alone and among everything else *)
Arg(c, b, i, form, vs, full) ==
  LET base == IF full THEN Full(c, b + 40, 0) ELSE Bare(c, b)
      fl == Fields(c)[i]
      kin == IF form = "kin" THEN Kin(fl, vs[1].d) ELSE IF form = "alien" THEN <<Alien(fl)>> ELSE <<"">>
      want(k) == IF k = "VariableDataPrototypeRef" /\ fl.a = "data_element_ref" /\ form = "kin" THEN "kept" ELSE Outcome(c, fl, form)
      One(k) == [c |-> c, i |-> i, form |-> form, want |-> want(k), rc |-> k,
                 rd |-> (IF form = "kin" THEN vs[1].d ELSE IF form = "alien" THEN RefTab[k][1] ELSE ""),
                 n |-> Close(SetF(base, i, vs))]
  IN [k \in 1..Len(kin) |-> One(kin[k])]
ArgsOf(c, b) ==
  LET fs == Fields(c)
      InForm(i, form) == LET gs == GivenIn(c, fs[i], form, Next1(b, i))
                         IN Flat([k \in 1..Len(gs) |-> Arg(c, Next1(b, k), i, form, gs[k], FALSE)]) \o
                            (IF gs = <<>> THEN <<>> ELSE Arg(c, b, i, form, gs[1], TRUE))
      One(i) == Flat([j \in 1..Cardinality(Forms(c, fs[i])) |-> InForm(i, SetToSeq(Forms(c, fs[i]))[j])])
  IN Flat([i \in 1..Len(fs) |-> One(i)])
=============================================================================
