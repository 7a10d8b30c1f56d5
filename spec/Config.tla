------------------------------- MODULE Config -------------------------------
(* The configuration of a workspace: namespaces with their package roles,    *)
(* documents and document mappings, and behaviour settings, set through the  *)
(* API or loaded from a configuration file (C13, C27).                       *)
(*                                                                           *)
(* What documents and mappings are worth shows in the files they make of a   *)
(* fixed package tree, so Config builds on Documents.  A path is [abs, segs]. *)
(* A namespace is [name, base, roles]; roles map a key ("=" built-in role,   *)
(* "!" user role, then its name) to the path it stands for.                  *)
EXTENDS Documents

BuiltIn == <<"APPLICATION_DATA_TYPE", "BASE_TYPE", "COMPONENT_TYPE", "COMPU_METHOD", "DATA_CONSTRAINT",
             "IMPLEMENTATION_DATA_TYPE", "MODE_DECLARATION", "PORT_INTERFACE", "UNIT", "CONSTANT">>
(* the other way to write a built-in role *)
Camel == <<"ApplicationDataType", "BaseType", "ComponentType", "CompuMethod", "DataConstraint",
           "ImplementationDataType", "ModeDeclaration", "PortInterface", "Unit", "Constant">>
SettingNames ==
  <<"background_event_prefix", "data_receive_error_event_prefix", "data_receive_event_prefix", "init_event_prefix",
    "operation_invoked_event_prefix", "swc_mode_manager_error_event_prefix", "swc_mode_switch_event_prefix",
    "timing_event_prefix", "data_read_access_prefix", "data_receive_point_prefix", "data_send_point_prefix",
    "data_write_access_prefix", "external_triggering_point_prefix", "internal_triggering_point_prefix",
    "mode_access_point_prefix", "mode_switch_point_prefix", "parameter_access_prefix", "read_local_variable_prefix",
    "server_call_point_prefix", "wait_point_prefix", "write_local_variable_prefix">>
NoValue == "\tnone"

(* a role as it is written: [user, name] *)
RoleKey(r) == IF r.user THEN "!" \o r.name
              ELSE LET i == First(BuiltIn, LAMBDA x : x = r.name) j == First(Camel, LAMBDA x : x = r.name)
                   IN IF i > 0 THEN "=" \o BuiltIn[i] ELSE IF j > 0 THEN "=" \o BuiltIn[j] ELSE ""
RECURSIVE Clean(_, _, _)
Clean(abs, done, segs) ==
  IF segs = <<>> THEN done
  ELSE IF segs[1] \in {"", "."} THEN Clean(abs, done, Tail(segs))
  ELSE IF segs[1] = ".." /\ done # <<>> /\ done[Len(done)] # ".." THEN Clean(abs, SubSeq(done, 1, Len(done) - 1), Tail(segs))
  ELSE IF segs[1] = ".." /\ abs THEN Clean(abs, done, Tail(segs))
  ELSE Clean(abs, Append(done, segs[1]), Tail(segs))
Norm(p) == [abs |-> p.abs, segs |-> Clean(p.abs, <<>>, p.segs)]
Below(base, rel) == IF rel.abs THEN rel ELSE [abs |-> base.abs, segs |-> base.segs \o rel.segs]
PathText(p) == IF ~p.abs /\ p.segs = <<>> THEN "." ELSE (IF p.abs THEN "/" ELSE "") \o Join(p.segs, "/")
Base(nsd) == IF nsd.based THEN nsd.base ELSE [abs |-> TRUE, segs |-> <<nsd.name>>]

(* the package tree in which documents are written *)
Held == [DocInit("r1") EXCEPT !.nodes =
  <<Node("pkg", "A", 0), Node("ApplicationSoftwareComponentType", "S", 1), Node("SwcImplementation", "S_Impl", 1),
    Node("pkg", "B", 1), Node("Unit", "u", 4), Node("CompositionSwComponentType", "T", 4), Node("pkg", "C", 0),
    Node("Unit", "S_T", 1)>>]

ConfInit(c) == [ns |-> <<>>, tree |-> Held, set |-> [i \in 1..Len(SettingNames) |-> NoValue], dead |-> FALSE]

NsAt(st, n) == First(st.ns, LAMBDA x : x.name = n)
AddNs(st, d) ==
  LET bad == \E i \in 1..Len(d.roles) : RoleKey(d.roles[i].role) = ""
      new == [name |-> d.name, map |-> [i \in 1..Len(d.roles) |->
                [k |-> RoleKey(d.roles[i].role), p |-> Norm(Below(Base(d), d.roles[i].path))]]]
      i == NsAt(st, d.name)
  IN IF bad THEN [ok |-> FALSE, st |-> st]
     ELSE [ok |-> TRUE, st |-> [st EXCEPT !.ns = IF i = 0 THEN Append(@, new) ELSE [@ EXCEPT ![i] = new]]]
AddDoc(st, d) == [st EXCEPT !.tree.docs = Append(@, [file |-> d.file, refs |-> d.refs])]
AddMap(st, m) == [st EXCEPT !.tree.maps = Append(@, [ref |-> m.ref, types |-> m.types, sfx |-> m.sfx])]
(* an entry is [name, text, v]: text FALSE for a value that is no text *)
SetAt(e) == First(SettingNames, LAMBDA x : x = e.name)
BadEntry(e) == SetAt(e) = 0 \/ ~e.text
SetOne(st, e) == [st EXCEPT !.set[SetAt(e)] = e.v]
RECURSIVE SetAll(_, _), AddAllNs(_, _), AddDocs(_, _), AddMaps(_, _)
SetAll(st, es) == IF es = <<>> THEN st ELSE SetAll(SetOne(st, es[1]), Tail(es))
AddAllNs(st, ds) == IF ds = <<>> THEN [ok |-> TRUE, st |-> st]
                    ELSE LET r == AddNs(st, ds[1]) IN IF r.ok THEN AddAllNs(r.st, Tail(ds)) ELSE r
AddDocs(st, ds) == IF ds = <<>> THEN st ELSE AddDocs(AddDoc(st, ds[1]), Tail(ds))
AddMaps(st, ms) == IF ms = <<>> THEN st ELSE AddMaps(AddMap(st, ms[1]), Tail(ms))
(* what may be wrong with a mapping in a file; "" if nothing is *)
MapFault(m) == m.fault # ""

Load(st, f) ==
  LET r == AddAllNs(st, f.ns) IN
  IF ~r.ok \/ (\E i \in 1..Len(f.maps) : MapFault(f.maps[i])) \/ (\E i \in 1..Len(f.set) : BadEntry(f.set[i]))
  THEN [ok |-> FALSE, st |-> [st EXCEPT !.dead = TRUE]]   \* how much of the file was applied is left open
  ELSE [ok |-> TRUE, st |-> SetAll(AddMaps(AddDocs(r.st, f.docs), f.maps), f.set)]

Role(st, n, r) ==
  LET i == NsAt(st, n) IN
  IF i = 0 THEN "err"
  ELSE LET mm == st.ns[i].map
           js == {x \in 1..Len(mm) : mm[x].k = RoleKey(r)}
       IN IF js = {} THEN "err" ELSE PathText(mm[CHOOSE x \in js : \A y \in js : y <= x].p)

ConfStep(st, op) ==
  CASE op.op = "ns" -> LET r == AddNs(st, op.ns) IN Out(r.st, IF r.ok THEN "ok" ELSE "err")
    [] op.op = "doc" -> Out(AddDoc(st, op), "ok")
    [] op.op = "map" -> Out(AddMap(st, op), "ok")
    [] op.op = "set" -> IF BadEntry(op.e) THEN Out(st, "err") ELSE Out(SetOne(st, op.e), "ok")
    [] op.op = "update" -> IF op.es # <<>> /\ BadEntry(op.es[1]) THEN Out(st, "err") ELSE Out(SetAll(st, op.es), "ok")
    [] op.op = "load" -> LET r == Load(st, op.f) IN Out(r.st, IF r.ok THEN "ok" ELSE "err")
    [] op.op = "role" -> Out(st, Role(st, op.n, op.role))
    [] op.op = "has" -> Out(st, IF NsAt(st, op.n) = 0 THEN "err" ELSE "ok")
    [] op.op = "get" -> LET i == First(SettingNames, LAMBDA x : x = op.n) IN
                        Out(st, IF i = 0 \/ st.set[i] = NoValue THEN "err" ELSE "=" \o st.set[i])
    [] OTHER ->  \* files: what writing all documents gives now
         LET r1 == WriteDocs(st.tree, <<>>, st.tree.docs, 51)
             r2 == IF r1.ok THEN WriteMaps(st.tree, r1.files, st.tree.maps, 51) ELSE Bad
         IN Out(st, IF r2.ok THEN Join(Map(Sorted(r2.files), LAMBDA f : f.n \o ".arxml " \o f.b), "; ") ELSE "err")

(* every setting; roles and files are asked for *)
ConfProj(st) == IF st.dead THEN <<"dead">>
                ELSE [i \in 1..Len(SettingNames) |-> SettingNames[i] \o " " \o st.set[i]]
=============================================================================
