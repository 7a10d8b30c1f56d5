----------------------------- MODULE DocumentsMC -----------------------------
(* All histories of Depth operations on a workspace of some given content    *)
EXTENDS Documents
CONSTANTS Depth, WithDocs, WithMaps, Worlds, Rich   \* Rich: every choice of document and mapping
VARIABLES st, hist, world
vars == <<st, hist, world>>
SeenAs == <<st, Len(hist), world>>
El(p, k, n) == [op |-> "elem", path |-> p, k |-> k, n |-> n]
Mk(p) == [op |-> "make", path |-> p]
App == "ApplicationSoftwareComponentType"
World(w) ==
  CASE w = 1 -> <<Mk(<<"A">>), El(<<"A">>, App, "S"), El(<<"A">>, App, "S_T"), El(<<"A">>, "SwcImplementation", "S_Impl"),
                  El(<<"A">>, "SwcImplementation", "S_T_Impl"), El(<<"A">>, "SwcImplementation", "S_impl"), Mk(<<"B">>), El(<<"B">>, "Unit", "u")>>
    [] w = 2 -> <<Mk(<<"A", "B">>), El(<<"A">>, "Unit", "u"), El(<<"A", "B">>, App, "T"), El(<<"A", "B">>, App, "S"),
                  El(<<"A", "B">>, "SwcImplementation", "S_Impl"), El(<<"A", "B">>, "Unit", "S_ImplX"),
                  El(<<"A", "B">>, "SenderReceiverInterface", "T_T"), Mk(<<"C">>)>>
    [] OTHER -> <<Mk(<<"A", "B", "C">>), Mk(<<"A", "C">>), El(<<"A", "B">>, "CompositionSwComponentType", "S"), El(<<"A", "B">>, App, "S_T"),
                  El(<<"A", "B">>, "SwcImplementation", "S_Impl"), El(<<"A", "C">>, App, "S"), El(<<"A", "C">>, "Unit", "Impl")>>
RECURSIVE Run(_, _)
Run(s, ops) == IF ops = <<>> THEN s ELSE Run(Step(s, ops[1]).st, Tail(ops))
Start(w) == IF w = 3 THEN "cwd" ELSE "r1"     \* cwd: no document root, files land where the program runs
Init == world \in Worlds /\ hist = World(world) /\ st = Run(DocInit(Start(world)), World(world))
Late(h) == Len(h) - Len(World(world))
Do(op) == LET r == Step(st, op) IN
          /\ Late(hist) < Depth
          /\ st' = r.st /\ hist' = Append(hist, op) /\ UNCHANGED world
          /\ Emit([c |-> Start(world), h |-> hist', r |-> r.res, p |-> Proj(r.st)])
Refs == {<<"A">>, <<"B">>, <<"A", "B">>, <<"A", "C">>, <<"A", "B", "C">>, <<"A", "S">>, <<"R">>}
AddDoc == WithDocs /\ Len(st.docs) < 2 /\ \E f \in (IF Rich THEN {"Main", "S", "sub/S"} ELSE {"Main", "S"}) :
  \/ Rich /\ Do([op |-> "doc", file |-> f, form |-> "none", refs |-> <<>>])
  \/ \E p \in (IF Rich THEN Refs ELSE {<<"A">>, <<"A", "B">>}) : Do([op |-> "doc", file |-> f, form |-> "str", refs |-> <<p>>])
  \/ \E p, q \in (IF Rich THEN Refs \ {<<"R">>} ELSE {<<"A">>, <<"A", "C">>}) : Do([op |-> "doc", file |-> f, form |-> "list", refs |-> <<p, q>>])
AddMap == WithMaps /\ Len(st.maps) < 2 /\ \E p \in (IF Rich THEN {<<"A">>, <<"A", "B">>, <<"A", "C">>, <<"A", "S">>, <<"R">>} ELSE {<<"A">>, <<"A", "B">>}) :
  \E t \in (IF Rich THEN { <<App>>, <<"SwComponentType">>, <<App, "Unit">>, <<"SwcImplementation", "SenderReceiverInterface">> }
             ELSE { <<"SwComponentType">>, <<App, "Unit">> }) :
  \E s \in (IF Rich THEN { <<>>, <<"_Impl">>, <<"_T", "_Impl">>, <<"_T_Impl", "_Impl">>, <<"_Impl", "", "_ImplX">>, <<"_Impl", "_Impl">>, <<"X">> }
             ELSE { <<"_T_Impl", "_Impl">>, <<"_T", "_Impl">> }) :
     Do([op |-> "map", ref |-> p, types |-> t, form |-> IF Len(s) = 1 /\ Len(t) = 1 THEN "str" ELSE "list", sfx |-> s])
Edit == Late(hist) > 0 /\ \/ Do(El(<<"A">>, App, "R"))
                          \/ Do(El(<<"A", "B">>, "Unit", "v"))
                          \/ Do(Mk(<<"A", "B", "R">>))
Redirect == Late(hist) > 1 /\ st.dir # "r2" /\ Do([op |-> "dir", d |-> "r2"])
Write == Late(hist) > 0 /\ \E v \in {48, 51} : Do([op |-> "write", ver |-> v])
Next == AddDoc \/ AddMap \/ Edit \/ Redirect \/ Write
Spec == Init /\ [][Next]_vars
Configured == FilesAsConfigured(st)
OnlyReads == [][\A i \in 1..Len(st.nodes) : st'.nodes[i] = st.nodes[i]]_vars
=============================================================================
