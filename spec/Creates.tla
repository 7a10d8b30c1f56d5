------------------------------ MODULE Creates ------------------------------
(* Creating elements by convenience: the methods by which an owner creates   *)
(* its parts, and the factories that put an element together from its parts' *)
(* arguments.  Each must give exactly the element the arguments describe,    *)
(* hand it back, and (owners) hold it at the end of the list it belongs in.  *)
(*                                                                           *)
(* A creator is [o, m, c, a, pos, fix, name, free]:                          *)
(*   o     class of the owner, "" for a factory of class c                   *)
(*   m     the method;  c  class of the element created                      *)
(*   a     attribute of the owner that holds it ("" for factories)           *)
(*   pos   arguments in the order of the documentation: [p, at, dflt] the    *)
(*         parameter, where its value ends up (path of attributes), and      *)
(*         whether leaving it out means something other than None            *)
(*   fix   attributes the method itself determines: [a, v]                   *)
(*   first literal arguments in front (names of things in the owner's world) *)
(*   free  attributes derived from those literals, judged elsewhere (C16-C18)*)
(* Everything else of the element is given by keyword.                       *)
(* An argument may also be given in another way ("text": a reference by its *)
(* path; "odd": something that is no such thing at all).  Then the method   *)
(* either does what it says or refuses, and refused leaves the owner as is. *)
EXTENDS ArxmlSchema

P(p) == [p |-> p, at |-> <<p>>, dflt |-> "0"]
At(p, at) == [p |-> p, at |-> at, dflt |-> "0"]
D(p) == [p |-> p, at |-> <<p>>, dflt |-> "2"]
Cr(o, m, c, a, pos) == [o |-> o, m |-> m, c |-> c, a |-> a, pos |-> pos, fix |-> <<>>, first |-> <<>>, free |-> <<>>]
Dir(m, d) == [Cr("ClientServerOperation", m, "ArgumentDataPrototype", "arguments", <<P("name"), P("server_arg_impl_policy")>>)
              EXCEPT !.fix = <<[a |-> "direction", v |-> Atom("=enum", d, "")]>>]
World(m, c, a, first, free, pos) == [Cr("SwcInternalBehavior", m, c, a, pos) EXCEPT !.first = first, !.free = <<"name", "start_on_event">> \o free]
Constr(m, w) == [Cr("", m, "DataConstraint", "",
    <<P("name"), At("lower_limit", <<"rules", w, "lower_limit">>), At("upper_limit", <<"rules", w, "upper_limit">>),
      At("scale_constr", <<"rules", w, "scale_constrs">>), At("max_gradient", <<"rules", w, "max_gradient">>),
      At("max_diff", <<"rules", w, "max_diff">>), At("monotony", <<"rules", w, "monotony">>)>>
    \o (IF w = "physical" THEN <<At("unit_ref", <<"rules", w, "unit_ref">>)>> ELSE <<>>)
    \o <<[At("lower_limit_type", <<"rules", w, "lower_limit_type">>) EXCEPT !.dflt = "1"],
         [At("upper_limit_type", <<"rules", w, "upper_limit_type">>) EXCEPT !.dflt = "1"]>>) EXCEPT !.fix = <<>>]
Trig(c, head, parts, more) ==
  Cr("", "make", c, "", <<P("name"), P("start_on_event")>> \o more \o [i \in 1..Len(parts) |-> At(parts[i], <<head, parts[i]>>)])
Port(o, m, c) == [Cr(o, m, c, "ports", <<>>) EXCEPT !.first = <<"Port", "%iface">>, !.free = <<"name", "port_interface_ref", "com_spec",
                  "provided_com_spec", "required_com_spec">>]
Creators == <<
  Cr("ModeDeclarationGroup", "create_mode_declaration", "ModeDeclaration", "mode_declarations", <<P("name"), P("value")>>),
  Cr("SenderReceiverInterface", "create_data_element", "VariableDataPrototype", "data_elements", <<P("name"), P("init_value")>>),
  Cr("SenderReceiverInterface", "create_invalidation_policy", "InvalidationPolicy", "invalidation_policies",
     <<P("data_element_ref"), P("handle_invalid")>>),
  Cr("NvDataInterface", "create_data_element", "VariableDataPrototype", "data_elements", <<P("name"), P("init_value")>>),
  Cr("ParameterInterface", "create_parameter", "ParameterDataPrototype", "parameters", <<P("name"), P("init_value")>>),
  Cr("ClientServerOperation", "create_argument", "ArgumentDataPrototype", "arguments", <<P("name"), P("direction"), P("server_arg_impl_policy")>>),
  Dir("create_in_argument", "IN"), Dir("create_out_argument", "OUT"), Dir("create_inout_argument", "INOUT"),
  Cr("ClientServerInterface", "create_operation", "ClientServerOperation", "operations",
     <<P("name"), P("arguments"), P("diag_arg_integrity"), P("fire_and_forget"), P("possible_error_refs")>>),
  Cr("ClientServerInterface", "create_possible_error", "ApplicationError", "possible_errors", <<P("name"), P("error_code")>>),
  Cr("ModeSwitchInterface", "create_mode_group", "ModeDeclarationGroupPrototype", "mode_group",
     <<P("name"), P("type_ref"), P("calibration_access")>>),
  Cr("SwcInternalBehavior", "create_exclusive_area", "ExclusiveArea", "exclusive_areas", <<P("name")>>),
  Cr("SwcInternalBehavior", "create_runnable", "RunnableEntity", "runnables",
     <<P("name"), P("can_be_invoked_concurrently"), P("minimum_start_interval"), D("symbol"), P("activation_reasons"),
       P("can_enter_leave"), P("exclusive_area_nesting_order"), P("reentrancy_level"), P("runs_insides"), P("sw_addr_method")>>),
  Cr("ApplicationSoftwareComponentType", "create_internal_behavior", "SwcInternalBehavior", "internal_behavior", <<P("name")>>),
  Cr("Package", "create_package", "Package", "packages", <<P("name")>>),
  Cr("Document", "create_package", "Package", "packages", <<P("name")>>),
  (* parts of an owner that refer to things in its world *)
  [Cr("CompositionSwComponentType", "create_component_prototype", "SwComponentPrototype", "components", <<P("name")>>)
     EXCEPT !.first = <<"%swc">>, !.free = <<"type_ref">>],
  Port("ApplicationSoftwareComponentType", "create_p_port", "ProvidePortPrototype"),
  Port("ApplicationSoftwareComponentType", "create_provide_port", "ProvidePortPrototype"),
  Port("CompositionSwComponentType", "create_r_port", "RequirePortPrototype"),
  Port("ApplicationSoftwareComponentType", "create_require_port", "RequirePortPrototype"),
  Port("CompositionSwComponentType", "create_pr_port", "PRPortPrototype"),
  World("create_background_event", "BackgroundEvent", "events", <<"Run">>, <<>>, <<>>),
  World("create_init_event", "InitEvent", "events", <<"Run">>, <<>>, <<>>),
  World("create_timing_event", "TimingEvent", "events", <<"Run">>, <<>>, <<P("period"), P("offset")>>),
  World("create_data_receive_error_event", "DataReceiveErrorEvent", "events", <<"Run", "RData/E1">>, <<"data">>, <<>>),
  World("create_data_received_event", "DataReceivedEvent", "events", <<"Run", "RData/E1">>, <<"data">>, <<>>),
  World("create_operation_invoked_event", "OperationInvokedEvent", "events", <<"Run", "PServer/Op1">>, <<"operation">>, <<>>),
  World("create_swc_mode_manager_error_event", "SwcModeManagerErrorEvent", "events", <<"Run", "PMode">>, <<"mode_group">>, <<>>),
  World("create_swc_mode_mode_switch_event", "SwcModeSwitchEvent", "events", <<"Run", "RMode/ON">>, <<"mode">>, <<P("activation")>>),
  (* factories *)
  Trig("DataReceiveErrorEvent", "data", <<"context_port", "target_data_element">>, <<>>),
  Trig("DataReceivedEvent", "data", <<"context_port", "target_data_element">>, <<>>),
  Trig("ExternalTriggerOccurredEvent", "trigger", <<"context_port", "target_trigger">>, <<>>),
  Trig("OperationInvokedEvent", "operation", <<"context_port", "target_provided_operation">>, <<>>),
  Cr("", "make", "SwcModeManagerErrorEvent", "", <<P("name"), P("start_on_event"), At("context_port", <<"mode_group", "context_port">>),
     At("context_mode_declaration_group_prototype", <<"mode_group", "target_mode_group">>)>>),
  Trig("SwcModeSwitchEvent", "mode", <<"context_port", "context_mode_declaration_group_prototype", "target_mode_declaration">>, <<P("activation")>>),
  Cr("", "make_from_port", "VariableAccess", "", <<P("name"), At("port_prototype_ref", <<"accessed_variable", "ar_variable_iref", "port_prototype_ref">>),
     At("target_data_prototype_ref", <<"accessed_variable", "ar_variable_iref", "target_data_prototype_ref">>)>>),
  Cr("", "make", "MultiLanguageOverviewParagraph", "", <<At("language", <<"elements", "language">>), At("paragraph", <<"elements", "parts">>)>>),
  Constr("make_physical", "physical"), Constr("make_internal", "internal")
  >>

-----------------------------------------------------------------------------
(* the value at a path: the field that holds it and what it holds; a path leads through one element at each step *)
RECURSIVE FieldAt(_, _), ValsAt(_, _)
FieldAt(n, at) == LET i == IdxOf(n.c, at[1]) IN
  IF Len(at) = 1 THEN Fields(n.c)[i] ELSE FieldAt(n.f[i][1], Tail(at))
ValsAt(n, at) == LET v == ValOf(n, at[1]) IN IF Len(at) = 1 THEN v ELSE ValsAt(v[1], Tail(at))
Heads(cr) == {cr.pos[i].at[1] : i \in 1..Len(cr.pos)}
DeepHeads(cr) == {cr.pos[i].at[1] : i \in {j \in 1..Len(cr.pos) : Len(cr.pos[j].at) > 1}}
Fixed(cr) == {cr.fix[i].a : i \in 1..Len(cr.fix)}
FreeOf(cr) == Elems(cr.free)
(* nothing is set off the paths *)
Sub1(pos, a) == SelectSeq(pos, LAMBDA p : p.at[1] = a)
RECURSIVE OnlyPaths(_, _)
OnlyPaths(n, pos) ==
  \A i \in 1..Len(n.f) :
    LET a == Fields(n.c)[i].a
        mine == Sub1(pos, a)
        ends == \E k \in 1..Len(mine) : Len(mine[k].at) = 1
    IN IF mine = <<>> THEN n.f[i] = <<>>
       ELSE ends \/ (Len(n.f[i]) = 1 /\ OnlyPaths(n.f[i][1], [k \in 1..Len(mine) |-> [mine[k] EXCEPT !.at = Tail(@)]]))
DeepOk(n, cr) == \A a \in DeepHeads(cr) :
  LET v == ValOf(n, a) IN Len(v) = 1 /\ OnlyPaths(v[1], LET mine == Sub1(cr.pos, a) IN [k \in 1..Len(mine) |-> [mine[k] EXCEPT !.at = Tail(@)]])
(* every value of every two of the attributes at once (falsy ones beside others), at most six of each *)
Head6(s) == SubSeq(s, 1, IF Len(s) < 6 THEN Len(s) ELSE 6)
Cross(c, b, as) ==
  LET fs == Fields(c)
      idx == SelectSeq([i \in 1..Len(fs) |-> i], LAMBDA i : fs[i].a \in as)
      vals == [k \in 1..Len(idx) |-> Head6(Values(fs[idx[k]], Next1(b, k), 0))]
      two(k, j) == Flat([x \in 1..Len(vals[k]) |-> [y \in 1..Len(vals[j]) |->
                     Close(SetF(SetF(Bare(c, b), idx[k], vals[k][x]), idx[j], vals[j][y]))]])
  IN Flat([k \in 1..Len(idx) |-> Flat([m \in 1..(Len(idx) - k) |-> two(k, k + m)])])
(* a holder for the deep arguments, with the given values of the innermost element *)
RECURSIVE Holders(_, _, _)
Holders(c, pos, b) ==     \* elements of class c that only hold values on the paths
  LET heads == [i \in 1..Len(Fields(c)) |-> Sub1(pos, Fields(c)[i].a)]
      deep == {i \in 1..Len(Fields(c)) : heads[i] # <<>> /\ (\A k \in 1..Len(heads[i]) : Len(heads[i][k].at) > 1)}
  IN IF deep = {} THEN SelectSeq(Cases(c, b, 0, TRUE) \o Cross(c, b + 3, {pos[k].at[1] : k \in 1..Len(pos)}), LAMBDA n : OnlyPaths(n, pos) /\ n # Bare(c, b))
     ELSE LET i == CHOOSE i \in deep : TRUE
              inner == Holders(Fields(c)[i].x, [k \in 1..Len(heads[i]) |-> [heads[i][k] EXCEPT !.at = Tail(@)]], b + 1)
          IN [k \in 1..Len(inner) |-> SetF(Bare(c, b), i, <<inner[k]>>)]

(* the elements to create: every case of the class, with what the method determines *)
Determined(n, cr) == [n EXCEPT !.f = [i \in 1..Len(n.f) |->
  LET a == Fields(n.c)[i].a
  IN IF a \in Fixed(cr) THEN <<cr.fix[First(cr.fix, LAMBDA x : x.a = a)].v>>
     ELSE IF a \in FreeOf(cr) /\ ~(a = "name") THEN <<>>
     ELSE n.f[i]]]
Filled(n, cr, hs, k) == IF DeepHeads(cr) = {} THEN n
                        ELSE LET a == CHOOSE a \in DeepHeads(cr) : TRUE IN SetF(n, IdxOf(n.c, a), <<hs[((k - 1) % Len(hs)) + 1]>>)
(* arguments that may not be left out (the name of an element aside, which every element here has) *)
Needed(cr) == CASE cr.m = "create_invalidation_policy" -> {"data_element_ref", "handle_invalid"}
                [] cr.m = "make_from_port" -> {"port_prototype_ref", "target_data_prototype_ref"}
                [] OTHER -> {}
ClassAt(c, a) == Fields(c)[IdxOf(c, a)].x
Plan(cr, b) ==
  LET cs == Cases(cr.c, b, 0, TRUE) \o Cross(cr.c, b + 3, {cr.pos[k].at[1] : k \in {j \in 1..Len(cr.pos) : Len(cr.pos[j].at) = 1}})
      head == CHOOSE a \in DeepHeads(cr) : TRUE
      hs == IF DeepHeads(cr) = {} THEN <<>>
            ELSE Holders(ClassAt(cr.c, head), LET mine == Sub1(cr.pos, head) IN [k \in 1..Len(mine) |-> [mine[k] EXCEPT !.at = Tail(@)]], b + 7)
      base == [k \in 1..Len(cs) |-> Determined(Filled(cs[k], cr, hs, k), cr)]
      deep == [k \in 1..Len(hs) |-> Determined(Filled(Bare(cr.c, b), cr, hs, k), cr)]
      text(n) == cr.c = "MultiLanguageOverviewParagraph" =>
                   LET v == ValOf(ValOf(n, "elements")[1], "parts") IN Len(v) = 1 /\ v[1].c = "=text"
      said(n) == /\ \A a \in Needed(cr) : \A k \in 1..Len(cr.pos) : cr.pos[k].p = a => ValsAt(n, cr.pos[k].at) # <<>>
                 /\ cr.c = "Package" => ValOf(n, "elements") = <<>> /\ ValOf(n, "packages") = <<>>
  IN TLCEval(SelectSeq(base \o deep, LAMBDA n : DeepOk(n, cr) /\ text(n) /\ said(n)))

-----------------------------------------------------------------------------
(* the call: [p, f, vals, pos] per argument that is given *)
Given(n, cr, i) == ValsAt(n, cr.pos[i].at) # <<>>
LastGiven(n, cr, style) ==   \* how many arguments are given by position
  IF style = "named" THEN 0
  ELSE LET stop == {i \in 1..Len(cr.pos) : cr.pos[i].dflt \in (IF style = "all" THEN {"1"} ELSE {"1", "2"}) /\ ~Given(n, cr, i)}
           upto == IF stop = {} THEN Len(cr.pos) ELSE (CHOOSE i \in stop : \A j \in stop : i <= j) - 1
           some == {i \in 1..upto : Given(n, cr, i)}
       IN IF style = "all" THEN upto   \* None where there is nothing
          ELSE IF some = {} THEN 0 ELSE CHOOSE i \in some : \A j \in some : j <= i
Arg(p, f, vals, pos) == [p |-> p, f |-> f, v |-> vals, pos |-> Bool(pos)]
Call(n, cr, style) ==
  LET k == LastGiven(n, cr, style)
      own == [i \in 1..Len(cr.pos) |-> Arg(cr.pos[i].p, FieldAt(n, cr.pos[i].at), ValsAt(n, cr.pos[i].at), i <= k)]
      rest == [i \in 1..Len(n.f) |-> Arg(Fields(n.c)[i].a, Fields(n.c)[i], n.f[i], FALSE)]
  IN SelectSeq(own, LAMBDA x : x.pos = "1" \/ x.v # <<>>)
     \o SelectSeq(rest, LAMBDA x : x.v # <<>> /\ ~(x.p \in Heads(cr)) /\ ~(x.p \in Fixed(cr)) /\ ~(x.p \in FreeOf(cr)))
(* other ways of giving the k-th argument of a call, and what has to come of it *)
Single(fl) == fl.k = "ref" /\ Len(RefTab[fl.x]) = 1
TextTaken == {<<"create_invalidation_policy", "data_element_ref">>}
Otherwise(cr, arg) == IF arg.v = <<>> THEN {}
  ELSE (IF Single(arg.f) /\ Len(arg.v) = 1 THEN {"text"} ELSE {}) \cup (IF arg.f.k \in {"sub", "any", "ref", "enum"} THEN {"odd"} ELSE {})
Due(cr, arg, way) == IF way = "text" /\ <<cr.m, arg.p>> \in TextTaken THEN "kept"
                     ELSE IF way = "odd" /\ cr.m = "create_invalidation_policy" THEN "err" ELSE "may"
Others(cr, call) == Flat([k \in 1..Len(call) |-> LET ws == SetToSeq(Otherwise(cr, call[k])) IN
                      [j \in 1..Len(ws) |-> [at |-> k, way |-> ws[j], due |-> Due(cr, call[k], ws[j])]]])
(* what the element is when an argument with a default of its own is left out *)
Outcome(n, cr, style) ==
  IF cr.m = "create_runnable" /\ style # "all" /\ ValOf(n, "symbol") = <<>> THEN SetF(n, IdxOf(n.c, "symbol"), ValOf(n, "name")) ELSE n
=============================================================================
