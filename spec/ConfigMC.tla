------------------------------ MODULE ConfigMC ------------------------------
(* Part "paths": every base with every role path; "settings": histories of   *)
(* settings over the names in Chosen; "files": histories of API calls and    *)
(* loaded files.                                                             *)
EXTENDS Config
CONSTANTS Part, Depth, Chosen
VARIABLES st, hist
vars == <<st, hist>>
SeenAs == <<st, Len(hist)>>
Init == st = ConfInit("") /\ hist = <<>>
Do(op) == LET r == ConfStep(st, op) IN
          /\ Len(hist) < Depth /\ ~st.dead
          /\ st' = r.st /\ hist' = Append(hist, op)
          /\ Emit([c |-> "", h |-> hist', r |-> r.res, p |-> ConfProj(r.st)])
P(abs, segs) == [abs |-> abs, segs |-> segs]
R(u, n) == [user |-> u, name |-> n]
Ns(n, based, base, roles) == [name |-> n, based |-> based, base |-> base, roles |-> roles]
Is(r, p) == [role |-> r, path |-> p]
None == P(FALSE, <<"x">>)
Bases == {P(FALSE, <<>>), P(FALSE, <<".">>), P(TRUE, <<>>), P(TRUE, <<"X">>), P(TRUE, <<"X", "Y", "">>), P(TRUE, <<"X", "..", "Z">>), P(TRUE, <<"X", "", "Y">>),
          P(FALSE, <<"X">>), P(FALSE, <<"X", "Y">>), P(FALSE, <<"..", "X">>), P(FALSE, <<".", "X", ".", "Y">>), P(TRUE, <<"..", "Q">>)}
Paths == {P(FALSE, <<"T">>), P(FALSE, <<"T", "U">>), P(TRUE, <<"T">>), P(TRUE, <<"T", "U", "">>), P(FALSE, <<"..", "T">>),
          P(FALSE, <<"..", "..", "T">>), P(TRUE, <<"T", "..", "V">>), P(FALSE, <<".", "T">>), P(FALSE, <<"T", "", "U">>),
          P(FALSE, <<"T", "..">>), P(TRUE, <<"X", "T">>)}
AllRoles == [i \in 1..Len(BuiltIn) |-> Is(R(FALSE, BuiltIn[i]), P(FALSE, <<"r" \o Str(i)>>))]
AllCamel == [i \in 1..Len(Camel) |-> Is(R(FALSE, Camel[i]), P(TRUE, <<"c" \o Str(i), "">>))]
Spaces ==
  {Ns("N", TRUE, b, <<Is(R(FALSE, "BaseType"), p), Is(R(TRUE, "Mine"), q)>>) : b \in Bases, p \in Paths, q \in {P(FALSE, <<"M">>), P(TRUE, <<"M">>)}} \cup
  {Ns(n, FALSE, None, <<Is(r, p)>>) : n \in {"N", "M"}, p \in Paths, r \in {R(FALSE, "Unit"), R(FALSE, "UNIT"), R(TRUE, "UNIT"), R(TRUE, "!x")}} \cup
  {Ns("N", FALSE, None, AllRoles), Ns("N", FALSE, None, AllCamel), Ns("N", TRUE, P(TRUE, <<>>), AllCamel \o AllRoles), Ns("M", FALSE, None, <<>>)} \cup
  {Ns("N", FALSE, None, <<Is(R(FALSE, "Unit"), P(FALSE, <<"T">>)), Is(R(FALSE, x), P(FALSE, <<"U">>))>>) : x \in {"unit", "Mine", "DataType", "PackageRole"}}
Few == {Ns("N", FALSE, None, <<Is(R(FALSE, "Unit"), P(FALSE, <<"T">>)), Is(R(TRUE, "Mine"), P(TRUE, <<"M">>))>>),
        Ns("N", TRUE, P(FALSE, <<"X">>), <<Is(R(FALSE, "CONSTANT"), P(FALSE, <<"T">>))>>),
        Ns("M", FALSE, None, <<Is(R(FALSE, "Unit"), P(FALSE, <<"T">>))>>),
        Ns("N", FALSE, None, <<Is(R(FALSE, "Mine"), P(TRUE, <<"M">>))>>)}
(* what is written in a configuration file *)
Conf(ns, docs, maps, set) == [ns |-> ns, docs |-> docs, maps |-> maps, set |-> set]
Doc(f, form, refs) == [file |-> f, form |-> form, refs |-> refs]
Mapp(p, t, form, s, fault) == [ref |-> p, types |-> t, form |-> form, sfx |-> s, fault |-> fault]
E(n, t, v) == [name |-> n, text |-> t, v |-> v]
App == "ApplicationSoftwareComponentType"
Docs == {Doc("Main", "str", <<<<"A">>>>), Doc("Main", "list", <<<<"C">>, <<"A", "B">>>>), Doc("S", "list", <<<<"A">>>>), Doc("x", "none", <<>>),
         Doc("S", "str", <<<<"A", "S">>>>)}
Maps == {Mapp(<<"A">>, <<App>>, "str", <<"_Impl">>, ""), Mapp(<<"A">>, <<"SwComponentType", "Unit">>, "list", <<"_T", "_Impl">>, ""),
         Mapp(<<"A", "B">>, <<"ARElement">>, "list", <<>>, ""), Mapp(<<"A">>, <<App>>, "none", <<>>, ""), Mapp(<<"R">>, <<App>>, "str", <<"_Impl">>, "")}
BadMaps == {Mapp(<<"A">>, <<App>>, "str", <<"_Impl">>, x) : x \in {"no ref", "no types", "empty types", "unknown type", "unknown second type", "not a class",
                                                                    "types number", "suffix number"}}
Files == {Conf(<<n>>, <<d>>, <<m>>, <<E("init_event_prefix", TRUE, "I")>>) : n \in Few, d \in Docs, m \in Maps} \cup
         {Conf(<<>>, <<d1, d2>>, <<m>>, <<>>) : d1 \in {Doc("Main", "str", <<<<"A">>>>)}, d2 \in {Doc("S", "list", <<<<"C">>>>)}, m \in BadMaps \cup Maps} \cup
         {Conf(<<>>, <<>>, <<m1, m2>>, <<>>) : m1 \in Maps, m2 \in BadMaps \cup Maps} \cup
         {Conf(<<n1, n2>>, <<>>, <<>>, <<E("timing_event_prefix", TRUE, "T"), E("init_event_prefix", TRUE, v)>>) :
             n1 \in {n \in Few : n.name = "M"}, n2 \in {n \in Few : n.name = "N"}, v \in {"", "J"}} \cup
         {Conf(<<>>, <<>>, <<>>, es) : es \in {<<E(n, t, "V")>> : n \in {"init_event_prefix", "nosuch", "update", "__class__"}, t \in BOOLEAN}} \cup
         {Conf(<<>>, <<>>, <<>>, <<>>), Conf(<<>>, <<>>, <<>>, [i \in 1..Len(SettingNames) |-> E(SettingNames[i], TRUE, "p" \o Str(i))])}
SomeFiles == {Conf(<<n>>, <<d>>, <<m>>, <<E("init_event_prefix", TRUE, "I")>>) : n \in {n \in Few : RoleKey(n.roles[1].role) # ""},
                d \in {Doc("Main", "str", <<<<"A">>>>), Doc("x", "none", <<>>)}, m \in {Mapp(<<"A">>, <<App>>, "str", <<"_Impl">>, "")}} \cup
             {Conf(<<>>, <<>>, <<>>, <<E("init_event_prefix", TRUE, "J"), E("timing_event_prefix", TRUE, "T")>>)}

Namespaced == \/ Part = "paths" /\ \E n \in Spaces : Do([op |-> "ns", ns |-> n])
              \/ Part = "files" /\ \E n \in Few : Do([op |-> "ns", ns |-> n])
Configured == Part = "files" /\ \/ \E d \in Docs : Do([op |-> "doc", file |-> d.file, form |-> d.form, refs |-> d.refs])
                                \/ \E m \in {m \in Maps : m.form # "none"} : Do([op |-> "map", ref |-> m.ref, types |-> m.types, form |-> m.form, sfx |-> m.sfx])
Loaded == Part = "files" /\ \E f \in (IF hist = <<>> THEN Files ELSE SomeFiles) : \E how \in (IF hist = <<>> THEN {"later", "new"} ELSE {"later"}) :
                                Do([op |-> "load", f |-> f, how |-> how])
Strange == {"nosuch", "update", "set_value", "__dict__", "__class__", "", "init event prefix", "INIT_EVENT_PREFIX"}
Values == {"", "A", "B c"}
Set == Part = "settings" /\ \/ \E n \in Chosen, v \in Values : Do([op |-> "set", e |-> E(n, TRUE, v)])
                            \/ \E n \in Chosen \cup Strange : Do([op |-> "set", e |-> E(n, n \in Strange, "A")])
Updated == Part = "settings" /\ \/ Do([op |-> "update", es |-> <<>>])
                                \/ \E n, m \in Chosen : n # m /\ Do([op |-> "update", es |-> <<E(n, TRUE, "C"), E(m, TRUE, "A")>>])
                                \/ \E n \in Chosen : Do([op |-> "update", es |-> <<E(n, FALSE, "C")>>])
                                \/ \E n \in Strange : Do([op |-> "update", es |-> <<E(n, TRUE, "C")>>])
Next == Namespaced \/ Configured \/ Loaded \/ Set \/ Updated
Spec == Init /\ [][Next]_vars

Known == Elems(BuiltIn)
Queries == IF st.dead THEN {}
           ELSE IF Part = "settings" THEN {[op |-> "get", n |-> n] : n \in Elems(SettingNames) \cup Strange}
           ELSE {[op |-> "role", n |-> n, role |-> R(FALSE, r)] : n \in {"N", "M", "Q"}, r \in Known} \cup
                {[op |-> "role", n |-> n, role |-> R(TRUE, r)] : n \in {"N", "M"}, r \in {"Mine", "!x", "UNIT", "BaseType", "!Mine", ""}} \cup
                {[op |-> "has", n |-> n] : n \in {"N", "M", "Q"}} \cup
                (IF Part = "files" THEN {[op |-> "files"]} ELSE {})
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o AsSeq(S \ {x})
EmitQueries == LET q == AsSeq(Queries) IN
               q # <<>> => Emit([c |-> "", h |-> hist, q |-> q, qr |-> [i \in 1..Len(q) |-> ConfStep(st, q[i]).res]])
(* on the specification: what a namespace resolves to is normalised, and absolute when its base is *)
Normal == \A i \in 1..Len(st.ns) : \A j \in 1..Len(st.ns[i].map) :
            LET p == st.ns[i].map[j].p IN Norm(p) = p /\ (p.abs => ~("/" \in Elems(p.segs)) /\ ~(".." \in Elems(p.segs)))
LastValue == \A i \in 1..Len(SettingNames) : st.set[i] # NoValue =>
               \E h \in 1..Len(hist) : \/ hist[h].op = "set" /\ hist[h].e.v = st.set[i]
                                       \/ hist[h].op = "update" /\ \E k \in 1..Len(hist[h].es) : hist[h].es[k].v = st.set[i]
                                       \/ hist[h].op = "load" /\ \E k \in 1..Len(hist[h].f.set) : hist[h].f.set[k].v = st.set[i]
=============================================================================
