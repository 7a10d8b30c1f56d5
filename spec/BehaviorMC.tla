----------------------------- MODULE BehaviorMC -----------------------------
(* Parts: "event" every event request once; "names" histories of events and *)
(* name clashes; "access" every port access request once; "accesses"         *)
(* histories of them; "build" histories of areas, runnables and options.     *)
EXTENDS Behavior
CONSTANTS Part, Depth
VARIABLES st, hist
vars == <<st, hist>>
SeenAs == st
Ifs == << Itf("S1", "sr", <<"a">>, TRUE), Itf("S2", "sr", <<"a", "b">>, TRUE), Itf("S0", "sr", <<>>, TRUE), Itf("N1", "nv", <<"a">>, TRUE), Itf("N2", "nv", <<"b", "a">>, TRUE),
          Itf("C1", "cs", <<"a">>, TRUE), Itf("C2", "cs", <<"a", "b">>, TRUE), Itf("M1", "ms", <<"a">>, TRUE), Itf("M0", "ms", <<>>, TRUE), Itf("MG", "ms", <<"a">>, FALSE),
          Itf("P1", "par", <<"a">>, TRUE), Itf("P2", "par", <<"a", "b">>, TRUE), Itf("G1", "gone", <<"a">>, TRUE) >>
Sidely(side) == [i \in 1..Len(Ifs) |-> Port(side \o Ifs[i].n, side, i)]
AllPorts == Sidely("P") \o Sidely("R") \o Sidely("PR")
FewPorts == <<Port("Rb", "R", 2), Port("pa", "P", 2), Port("C", "R", 6), Port("M", "P", 8), Port("a", "R", 11), Port("d", "PR", 8)>>
Given == [p \in Elems(Prefixes) |-> "pre" \o p]
Conf == [ifs |-> Ifs, ports |-> IF Part \in {"event", "access"} THEN AllPorts ELSE FewPorts, modes |-> <<"On", "Off">>, trans |-> <<"Change">>,
         prefix |-> IF Part \in {"names", "accesses"} THEN [p \in {"init", "read", "timing", "receive", "access", "call"} |-> "E"] ELSE IF Part = "build" THEN [p \in {"init"} |-> "E"] ELSE Given,
         runs |-> IF Part = "build" THEN <<>> ELSE <<"Run", "run">>]
Init == st = BInit(Conf) /\ hist = <<>>
Do(op) == LET r == BStep(st, op) IN
          /\ Len(hist) < Depth
          /\ st' = r.st /\ hist' = Append(hist, op)
          /\ Emit([c |-> Conf, h |-> hist', r |-> r.res, p |-> BProj(r.st)])
EventOp(k, run, at, form, n, x) == [op |-> "event", k |-> k, run |-> run, at |-> at, form |-> form, n |-> n, x |-> x]
Ask(pre, at, n, x, low, sp) == [pre |-> pre, at |-> at, n |-> n, x |-> x, low |-> low, sp |-> sp]
AccessOp(run, items, list) == [op |-> "access", run |-> run, items |-> items, list |-> list]

TargetKinds == {"error", "received", "invoked", "manager"}
PortNames == {AllPorts[i].n : i \in 1..Len(AllPorts)} \cup {"zz"}
Paths(names) == {<<n>> : n \in names} \cup {<<n, e>> : n \in names, e \in {"a", "b", "zz"}}
ModePorts == {"RM1", "PRM1", "PM1", "RM0", "RMG", "RS1", "RG1", "zz", ""}
ModePaths == {<<n, m>> : n \in ModePorts, m \in {"On", "Off", "Change", "zz"}} \cup {<<n>> : n \in ModePorts} \cup {<<"RM1", "On", "x">>}
EveryEvent == Part = "event" /\
  \/ \E k \in TargetKinds : \E at \in Paths(PortNames) : Do(EventOp(k, "Run", <<at>>, "one", "", <<>>))
  \/ \E k \in TargetKinds : \E at \in {<<"RS1">>, <<"RS2", "b">>, <<"PC1">>, <<"PRC2", "b">>, <<"PRM1">>, <<"PRS1">>} : \E run \in {"run", "No"} : \E n \in {"", "N"} : \E x \in {<<>>, <<Set("cat", "c")>>, <<Set("junk", "1")>>} :
       Do(EventOp(k, run, <<at>>, "one", n, x))
  \/ \E at \in ModePaths : \E n \in {"", "N"} : Do(EventOp("switch", "Run", <<at>>, "one", n, <<>>))
  \/ \E a, b \in {<<"RM1", "On">>, <<"RM1", "Off">>, <<"PRM1", "On">>, <<"PM1", "On">>, <<"RMG", "On">>, <<"RM1">>, <<"zz", "On">>} : \E form \in {"tuple", "list"} : \E x \in {<<>>, <<Set("activation", "on-transition")>>} :
       Do(EventOp("switch", "run", <<a, b>>, form, "", x))
  \/ \E form \in {"number", "mixed"} : \E n \in {"", "N"} : Do(EventOp("switch", "Run", << <<"RM1", "On">> >>, form, n, <<>>))
  \/ \E form \in {"tuple", "list"} : \E a \in {<<"RM1", "On">>, <<"">>} : Do(EventOp("switch", "Run", <<a, <<"">> >>, form, "N", <<>>))
  \/ \E form \in {"tuple", "list"} : \E at \in {<< <<"RM1", "On">> >>, << <<"RM1", "On">>, <<"RM1", "Off">>, <<"RM1", "On">> >>} : Do(EventOp("switch", "Run", at, form, "", <<>>))
  \/ \E act \in {"on-entry", "on-exit", "on-transition", "bad"} : Do(EventOp("switch", "Run", << <<"RM1", "On">> >>, "one", "", <<Set("activation", act)>>))
  \/ \E run \in {"Run", "run", "No"} : \E n \in {"", "N"} :
       \/ \E k \in {"background", "init"} : \E x \in {<<>>, <<Set("cat", "c")>>, <<Set("junk", "1")>>} : Do(EventOp(k, run, <<>>, "one", n, x))
       \/ \E x \in {<<>>, <<Set("period", "0.5")>>, <<Set("offset", "0.25")>>, <<Set("period", "2.0"), Set("offset", "0.0")>>, <<Set("period", "bad")>>, <<Set("cat", "c"), Set("period", "0.5")>>} :
            Do(EventOp("timing", run, <<>>, "one", n, x))
NameEvents == Part = "names" /\
  \/ \E k \in {"init", "timing"} : \E run \in {"Run", "No"} : Do(EventOp(k, run, <<>>, "one", "", <<>>))
  \/ \E n \in {"E", "E_0", "E_1", "E_Run", "E_Run_1", "E_3", "xE", "E_"} : Do(EventOp("init", "run", <<>>, "one", n, <<>>))
  \/ Do(EventOp("received", "Run", << <<"Rb", "zz">> >>, "one", "E", <<>>))
  \/ Do(EventOp("received", "Run", << <<"Rb", "b">> >>, "one", "E", <<>>))
  \/ Do(EventOp("init", "Run", <<>>, "one", "E", <<Set("junk", "1")>>))
  \/ Do(EventOp("background", "Run", <<>>, "one", "", <<>>))
  \/ \E k \in {"background", "init"} : Do([op |-> "prefix", k |-> k, v |-> "E"])
  \/ Do([op |-> "prefix", k |-> "timing", v |-> "x"])

Pres == {"", "ARGUMENT", "ARG", "VALUE", "VAL", "READ", "WRITE", "SEND", "ASYNC", "SYNC", "ACCESS", "SWITCH", "CALL"}
XsOf == {<<>>, <<Set("cat", "c")>>, <<Set("scope", "communication-intra-partition")>>, <<Set("timeout", "0.5")>>, <<Set("rvp", "return-value-provided")>>, <<Set("junk", "1")>>}
EveryAccess == Part = "access" /\
  \/ \E pre \in Pres : \E at \in Paths(PortNames) : Do(AccessOp("Run", <<Ask(pre, at, "", <<>>, FALSE, "")>>, FALSE))
  \/ \E pre \in Pres : \E at \in {<<p>> : p \in {"RS1", "PN1", "RC1", "PRC1", "PM1", "RP1", "RM1", "RG1", "PG1"}} : \E x \in XsOf : \E n \in {"", "N"} :
       (pre # "" \/ at[1] \notin {"PM1", "RM1"}) /\ Do(AccessOp("run", <<Ask(pre, at, n, x, TRUE, " ")>>, TRUE))
Request(pre, at, n) == Ask(pre, at, n, <<>>, FALSE, "")
SomeRequests == {Request("READ", <<"Rb", "a">>, ""), Request("READ", <<"Rb", "b">>, "E_Rb_a"), Request("READ", <<"Rb", "zz">>, ""),
                 Request("", <<"Rb", "a">>, ""), Request("ASYNC", <<"C">>, ""), Request("SYNC", <<"C">>, "E_C_a_1"), Request("", <<"C">>, ""),
                 Request("", <<"M">>, ""), Request("ACCESS", <<"M">>, "m"), Request("WRITE", <<"pa", "a">>, "w"),
                 Ask("READ", <<"Rb", "b">>, "x", <<Set("cat", "c")>>, FALSE, "")}
Accesses == Part = "accesses" /\
  \/ \E q \in SomeRequests : \E run \in {"Run", "run"} : (run = "Run" \/ q.pre = "ASYNC") /\ Do(AccessOp(run, <<q>>, FALSE))
  \/ \E q, s \in {x \in SomeRequests : x.pre \in {"READ", "ASYNC", "WRITE"}} : hist = <<>> /\ Do(AccessOp("Run", <<q, s>>, TRUE))
  \/ Do(AccessOp("No", <<>>, TRUE)) \/ Do(AccessOp("Run", <<>>, TRUE))
  \/ \E k \in {"write", "call", "read"} : Do([op |-> "prefix", k |-> k, v |-> "w"])

Named(n) == [ref |-> FALSE, n |-> n]
Refd(n) == [ref |-> TRUE, n |-> n]
RunOp(n, sym, enter, x, form) == [op |-> "run", n |-> n, sym |-> sym, enter |-> enter, x |-> x, form |-> form]
OptOp(form, names, x) == [op |-> "opts", form |-> form, names |-> names, x |-> x]
Fresh(n) == RunOf(st, n) = 0
Build == Part = "build" /\
  \/ \E n \in {"B", "A"} : n \notin Elems(st.areas) /\ Do([op |-> "area", n |-> n])
  \/ \E n \in {"Run", "R2"} : Fresh(n) /\
       \/ \E sym \in {"", "none", "S"} : Do(RunOp(n, sym, <<>>, <<>>, "none"))
       \/ \E e \in {<<Named("A")>>, <<Named("zz")>>, <<Refd("/X/Y")>>} : Do(RunOp(n, "", e, <<>>, "one"))
       \/ \E e \in {<<>>, <<Named("A")>>, <<Named("A"), Named("B")>>, <<Named("B"), Named("A"), Named("B")>>, <<Named("A"), Refd("/X/Y")>>, <<Refd("/X/Y"), Refd("/X/Z")>>, <<Refd("A"), Named("zz")>>} :
            Do(RunOp(n, "", e, <<Set("conc", "true"), Set("msi", "0.5")>>, "list"))
       \/ \E x \in {<<Set("msi", "bad")>>, <<Set("cat", "c"), Set("conc", "false")>>, <<Set("inside", "/X/Y")>>} : Do(RunOp(n, "S", <<>>, x, "none"))
  \/ \E x \in {<<>>, <<Set("addr", "true")>>, <<Set("indirect", "false"), Set("errors", "transformer-error-handling")>>, <<Set("addr", "false"), Set("args", "1,2")>>, <<Set("lock", "supports-buffer-locking"), Set("fwd", "transformer-status-forwarding")>>, <<Set("errors", "bad")>>} :
       \/ \E n \in {"Rb", "pa", "M", "zz"} : Do(OptOp("one", <<n>>, x))
       \/ \E ns \in {<<>>, <<"pa", "Rb">>, <<"M", "M">>, <<"Rb", "zz", "C">>} : Do(OptOp("list", ns, x))
       \/ Do(OptOp("star", <<>>, x)) \/ Do(OptOp("number", <<>>, x)) \/ Do(OptOp("object", <<"M">>, x)) \/ Do(OptOp("thing", <<"M">>, x))
  \/ \E n \in {"Rb", "M"} : \E s \in {Set("args", "3"), Set("lock", "supports-buffer-locking"), Set("args", "bad"), Set("lock", "bad")} : Do([op |-> "extend", p |-> n, k |-> s.k, v |-> s.v])
  \/ Do(EventOp("init", "Run", <<>>, "one", "", <<>>))
Next == EveryEvent \/ NameEvents \/ EveryAccess \/ Accesses \/ Build
Spec == Init /\ [][Next]_vars
Asking == Map(<<"Run", "R2", "run", "zz">>, LAMBDA n : [op |-> "find", n |-> n])
EmitAsking == Emit([c |-> Conf, h |-> hist, q |-> Asking, qr |-> Map(Asking, LAMBDA q : BStep(st, q).res)])

(* on the specification *)
EventNamesDistinct == Distinct(Map(st.evs, LAMBDA e : e.n))
AccessNamesDistinct == \A r \in Elems(Map(st.runs, LAMBDA x : x.n)) : \A l \in Elems(Lists) :
  l = "mode" \/ Distinct(Map(Keep(st.acc, LAMBDA a : a.r = r /\ a.l = l), LAMBDA a : a.n))
OneOptionPerPort == Distinct(Map(st.opts, LAMBDA o : o.p)) /\ \A i \in 1..Len(st.opts) : PortOf(st, st.opts[i].p) # 0
AreasKnown == \A i \in 1..Len(st.runs) : \A j \in 1..Len(st.runs[i].enter) : st.runs[i].enter[j] \in Elems(st.areas) \cup {"/X/Y", "/X/Z"}
(* what was there keeps its meaning: only names may change *)
Kept(s, t, F(_)) == Len(t) >= Len(s) /\ \A i \in 1..Len(s) : F(t[i]) = F(s[i])
Stable == [][/\ Kept(st.evs, st'.evs, LAMBDA e : [e EXCEPT !.n = ""]) /\ Kept(st.acc, st'.acc, LAMBDA a : [a EXCEPT !.n = ""])
             /\ Kept(st.runs, st'.runs, LAMBDA r : r) /\ Kept(st.areas, st'.areas, LAMBDA a : a)
             /\ Len(st'.evs) <= Len(st.evs) + 1 /\ Len(st'.runs) <= Len(st.runs) + 1]_vars
=============================================================================
