------------------------------ MODULE Behavior ------------------------------
(* The internal behaviour of a software component: its runnables and their   *)
(* port accesses (C19), its events (C18), its exclusive areas and port API   *)
(* options (C20).                                                            *)
(*                                                                           *)
(* The world: interfaces [n, kind, els, g] (kind sr, nv, cs, ms, par; els    *)
(* the names of data elements, operations, mode group or parameters; g: the  *)
(* mode group's type exists), ports [n, side, i], and the modes and          *)
(* transitions of the mode group type.  Paths are sequences of names.        *)
EXTENDS Kit

Itf(n, kind, els, g) == [n |-> n, kind |-> kind, els |-> els, g |-> g]
Port(n, side, i) == [n |-> n, side |-> side, i |-> i]
Set(k, v) == [k |-> k, v |-> v]
Out(st, res) == [st |-> st, res |-> res]

Prefixes == <<"background", "error", "received", "init", "invoked", "manager", "switch", "timing",
              "read", "receive", "send", "write", "access", "point", "param", "call">>
NoPrefix == [p \in Elems(Prefixes) |-> ""]
(* what c may say beyond ifs, ports, modes, trans: prefix, runs *)
BInit(c) == [ifs |-> c.ifs, ports |-> c.ports, modes |-> c.modes, prefix |-> c.prefix @@ NoPrefix,
             runs |-> Map(c.runs, LAMBDA n : [n |-> n, x |-> "sym=" \o n, enter |-> <<>>]),
             evs |-> <<>>, acc |-> <<>>, areas |-> <<>>, opts |-> <<>>]

-----------------------------------------------------------------------------
(* names made unique: names is a sequence of distinct names *)
Num(base, k) == base \o "_" \o Str(k)
Series(names, base) ==
  LET used == {k \in 0..40 : Num(base, k) \in Elems(names)}
      plain == First(names, LAMBDA n : n = base)
      top == IF used = {} THEN 0 ELSE CHOOSE k \in used : \A j \in used : j <= k
      renamed == IF 0 \in used THEN Num(base, top + 1) ELSE Num(base, 0)
      last == IF plain # 0 /\ 0 \in used THEN top + 1 ELSE top
  IN [names |-> IF plain = 0 THEN names ELSE [names EXCEPT ![plain] = renamed],
      new |-> IF plain = 0 /\ used = {} THEN base ELSE Num(base, last + 1)]

PortOf(st, n) == First(st.ports, LAMBDA p : p.n = n)
RunOf(st, n) == First(st.runs, LAMBDA r : r.n = n)
(* the element of interface i that path at = <<port>> or <<port, element>> names, "" if there is none *)
ElementOf(itf, at) ==
  IF Len(at) = 1 \/ at[2] = "" THEN (IF Len(itf.els) = 1 THEN itf.els[1] ELSE "")
  ELSE IF at[2] \in Elems(itf.els) THEN at[2] ELSE ""

-----------------------------------------------------------------------------
(* C18.  An event: [k, n, r, t, x]: kind, name, runnable, target, settings *)
Sides(k) == CASE k \in {"error", "received", "switch"} -> {"R", "PR"} [] OTHER -> {"P", "PR"}
Demands(k) == CASE k \in {"error", "received"} -> "sr" [] k = "invoked" -> "cs" [] OTHER -> "ms"
(* [t, n]: the target as shown and the base of the generated name; t "" is refused *)
NoTarget == [t |-> "", n |-> ""]
Target(st, k, run, at) ==
  LET i == PortOf(st, at[1]) IN
  IF i = 0 \/ Len(at) > 2 THEN NoTarget
  ELSE LET p == st.ports[i] itf == st.ifs[p.i] e == ElementOf(itf, IF k \in {"manager", "switch"} THEN <<at[1]>> ELSE at) IN
       IF p.side \notin Sides(k) \/ itf.kind # Demands(k) \/ e = "" THEN NoTarget
       ELSE IF k = "manager" THEN (IF Len(at) = 1 THEN [t |-> p.n \o " " \o itf.n \o "." \o e, n |-> run \o "_" \o p.n \o "_" \o e] ELSE NoTarget)
       ELSE IF k = "switch" THEN (IF Len(at) = 2 /\ itf.g /\ at[2] \in Elems(st.modes) THEN [t |-> p.n \o " " \o itf.n \o "." \o e \o " " \o at[2], n |-> run] ELSE NoTarget)
       ELSE [t |-> p.n \o " " \o itf.n \o "." \o e, n |-> run \o "_" \o p.n \o "_" \o e]
Targets(st, op) == Map(op.at, LAMBDA at : Target(st, op.k, op.run, at))
Fixed == {"background", "init", "timing"}
EventTakes(k) == {"cat"} \cup (CASE k = "timing" -> {"period", "offset"} [] k = "switch" -> {"activation"} [] OTHER -> {})
EventKeys == <<"cat", "activation", "period", "offset">>
Sets(keys, s) == Join(Flat(Map(keys, LAMBDA k : Map(Keep(s, LAMBDA x : x.k = k), LAMBDA x : " " \o k \o "=" \o x.v))), "")
(* form: how the mode references of a switch event are handed over: "one", "tuple" or "list" (or what is none) *)
ShapeOk(op) == CASE op.k \in Fixed -> TRUE [] op.form \in {"number", "mixed"} -> FALSE   \* a number in place of a path
                 [] op.k = "switch" /\ op.form # "one" -> Len(op.at) = 2 [] OTHER -> Len(op.at) = 1
NewEvent(st, op) ==
  LET targets == Targets(st, op)
      ok == /\ RunOf(st, op.run) # 0 /\ ShapeOk(op)
            /\ op.k \in Fixed \/ \A i \in 1..Len(targets) : targets[i].t # ""
            /\ op.n # "" \/ st.prefix[op.k] # ""
            /\ \A i \in 1..Len(op.x) : op.x[i].k \in EventTakes(op.k) /\ op.x[i].v # "bad"
      base == IF op.n # "" THEN op.n ELSE st.prefix[op.k] \o "_" \o (IF op.k \in Fixed THEN op.run ELSE targets[1].n)
      made == Series(Map(st.evs, LAMBDA e : e.n), base)
  IN IF ~ok THEN Out(st, "err")
     ELSE Out([st EXCEPT !.evs = Append([i \in 1..Len(@) |-> [@[i] EXCEPT !.n = made.names[i]]],
                                        [k |-> op.k, n |-> made.new, r |-> op.run, t |-> IF op.k \in Fixed THEN "" ELSE Join(Map(targets, LAMBDA t : t.t), " | "),
                                         x |-> Sets(EventKeys, op.x)])], "ok")

-----------------------------------------------------------------------------
(* C19.  An access: [r, l, n, t, x]: runnable, list, name, target, settings. *)
(* A request: [pre, at, n, x, low, sp]: prefix ("" for none), path, explicit *)
(* name ("" for none), settings; low, sp only vary how the text is written.  *)
Lists == <<"read", "arg", "val", "send", "write", "mode", "switch", "param", "async", "sync">>
ListFor(kind, side, pre) ==
  CASE kind \in {"sr", "nv"} /\ side = "R" -> (CASE pre \in {"", "ARGUMENT", "ARG"} -> "arg" [] pre \in {"VALUE", "VAL"} -> "val" [] pre = "READ" -> "read" [] OTHER -> "")
    [] kind \in {"sr", "nv"} /\ side = "P" -> (CASE pre \in {"", "SEND"} -> "send" [] pre = "WRITE" -> "write" [] OTHER -> "")
    [] kind = "ms" /\ side = "R" -> (CASE pre \in {"", "ACCESS"} -> "mode" [] OTHER -> "")
    [] kind = "ms" /\ side = "P" -> (CASE pre \in {"", "ACCESS"} -> "mode" [] pre = "SWITCH" -> "switch" [] OTHER -> "")
    [] kind = "cs" /\ side # "P" -> (CASE pre \in {"", "SYNC"} -> "sync" [] pre = "ASYNC" -> "async" [] OTHER -> "")
    [] kind = "par" -> (IF pre = "" THEN "param" ELSE "")
    [] OTHER -> ""
PrefixOf(l) == CASE l = "read" -> "read" [] l \in {"arg", "val"} -> "receive" [] l = "send" -> "send" [] l = "write" -> "write"
                 [] l = "mode" -> "access" [] l = "switch" -> "point" [] l = "param" -> "param" [] OTHER -> "call"
AccessTakes(l) == {"cat"} \cup (CASE l \in {"read", "arg", "val", "send", "write"} -> {"scope"} [] l \in {"mode", "switch", "param"} -> {"rvp"}
                                   [] l = "async" -> {"rvp", "timeout"} [] OTHER -> {"rvp", "timeout", "area"})
AccessKeys == <<"cat", "scope", "rvp", "timeout", "area">>
OneAccess(st, run, q) ==
  LET i == PortOf(st, q.at[1]) IN
  IF i = 0 THEN Out(st, "err")
  ELSE LET p == st.ports[i] itf == st.ifs[p.i] e == ElementOf(itf, q.at) l == ListFor(itf.kind, p.side, q.pre)
           plainmode == l = "mode" /\ q.pre = ""      (* a bare mode access point has no name of its own *)
           base == IF plainmode THEN "-" ELSE IF q.n # "" THEN q.n ELSE st.prefix[PrefixOf(l)] \o "_" \o p.n \o "_" \o e
           mine(a) == a.r = run /\ (a.l = l \/ {a.l, l} = {"sync", "async"})
           made == Series(Map(Keep(st.acc, mine), LAMBDA a : a.n), base)
           (* an access of the same name in the list gives way *)
           renamed == First(Map(Keep(st.acc, mine), LAMBDA a : a.n), LAMBDA n : n = base)
           away(a) == IF l # "mode" /\ mine(a) /\ a.n = base THEN [a EXCEPT !.n = made.names[renamed]] ELSE a
       IN IF e = "" \/ l = "" THEN Out(st, "err")
          ELSE IF (~plainmode /\ q.n = "" /\ st.prefix[PrefixOf(l)] = "") \/ (\E j \in 1..Len(q.x) : q.x[j].k \notin AccessTakes(l) \/ q.x[j].v = "bad") THEN Out(st, "err")
          ELSE Out([st EXCEPT !.acc = Append(Map(@, away), [r |-> run, l |-> l, n |-> base, t |-> p.n \o " " \o itf.n \o "." \o e, x |-> Sets(AccessKeys, q.x)])], "ok")
RECURSIVE AllAccesses(_, _, _)
AllAccesses(st, run, qs) ==
  IF qs = <<>> THEN Out(st, "ok")
  ELSE LET r == OneAccess(st, run, qs[1]) IN IF r.res = "err" THEN r ELSE AllAccesses(r.st, run, Tail(qs))

-----------------------------------------------------------------------------
(* C20 *)
AreaEntry(st, e) == IF e.ref THEN TRUE ELSE e.n \in Elems(st.areas)
RunKeys == <<"conc", "msi", "cat", "inside">>
NewRun(st, op) ==
  IF (\E i \in 1..Len(op.enter) : ~AreaEntry(st, op.enter[i])) \/ (\E i \in 1..Len(op.x) : op.x[i].v = "bad") THEN Out(st, "err")
  ELSE LET named == Keep(st.areas, LAMBDA a : \E i \in 1..Len(op.enter) : ~op.enter[i].ref /\ op.enter[i].n = a)
           given == Map(Keep(op.enter, LAMBDA e : e.ref), LAMBDA e : e.n)
       IN Out([st EXCEPT !.runs = Append(@, [n |-> op.n, x |-> (CASE op.sym = "" -> "sym=" \o op.n [] op.sym = "none" -> "" [] OTHER -> "sym=" \o op.sym) \o Sets(RunKeys, op.x),
                                             enter |-> named \o given])], "ok")
OptKeys == <<"addr", "indirect", "errors", "args", "lock", "fwd">>
Options(st, op) ==
  LET asked == IF op.form = "star" THEN Map(st.ports, LAMBDA p : p.n) ELSE op.names
      keep == Keep(st.opts, LAMBDA o : o.p \notin Elems(asked))
      new == Keep(Map(st.ports, LAMBDA p : [p |-> p.n, x |-> op.x]), LAMBDA o : o.p \in Elems(asked))
  IN IF op.form \in {"number", "thing"} \/ \E i \in 1..Len(asked) : PortOf(st, asked[i]) = 0 THEN Out(st, "err")
     ELSE IF asked # <<>> /\ \E i \in 1..Len(op.x) : op.x[i].v = "bad" THEN Out(st, "err")
     ELSE Out([st EXCEPT !.opts = keep \o new], "ok")
(* one more argument value or supported feature for the options of one port: those of other ports do not change *)
Extended(x, k, v) == LET i == First(x, LAMBDA s : s.k = k) IN
  IF i = 0 THEN Append(x, Set(k, v)) ELSE [x EXCEPT ![i].v = @ \o "," \o v]
Extend(st, op) ==
  LET i == First(st.opts, LAMBDA o : o.p = op.p) IN
  IF i = 0 THEN Out(st, "none") ELSE IF op.v = "bad" THEN Out(st, "err")
  ELSE Out([st EXCEPT !.opts[i].x = Extended(@, op.k, op.v)], "ok")

-----------------------------------------------------------------------------
BStep(st, op) ==
  CASE op.op = "event" -> NewEvent(st, op)
    [] op.op = "access" -> (IF RunOf(st, op.run) = 0 THEN Out(st, "err") ELSE AllAccesses(st, op.run, op.items))
    [] op.op = "prefix" -> Out([st EXCEPT !.prefix[op.k] = op.v], "ok")
    [] op.op = "area" -> Out([st EXCEPT !.areas = Append(@, op.n)], "ok")
    [] op.op = "run" -> NewRun(st, op)
    [] op.op = "opts" -> Options(st, op)
    [] op.op = "extend" -> Extend(st, op)
    [] OTHER -> Out(st, IF RunOf(st, op.n) = 0 THEN "none" ELSE "runnable " \o Str(RunOf(st, op.n)))

(* exclusive-area entries, in the order of the areas, then the foreign ones *)
Entered(st, r) == Join(Flat(Map(st.areas, LAMBDA a : Keep(r.enter, LAMBDA e : e = a))) \o Keep(r.enter, LAMBDA e : e \notin Elems(st.areas)), ",")
RunShown(st, r) ==
  <<"run " \o r.n \o " " \o r.x \o " [" \o Entered(st, r) \o "]">> \o
  Flat(Map(Lists, LAMBDA l : Map(Keep(st.acc, LAMBDA a : a.r = r.n /\ a.l = l), LAMBDA a : "  " \o l \o " " \o a.n \o " -> " \o a.t \o a.x)))
BProj(st) == Flat(Map(st.runs, LAMBDA r : RunShown(st, r))) \o
             Map(st.evs, LAMBDA e : e.k \o " " \o e.n \o " -> " \o e.r \o (IF e.t = "" THEN "" ELSE " [" \o e.t \o "]") \o e.x) \o
             Map(Keep(Map(st.ports, LAMBDA p : First(st.opts, LAMBDA o : o.p = p.n)), LAMBDA i : i # 0), LAMBDA i : "option " \o st.opts[i].p \o Sets(OptKeys, st.opts[i].x)) \o
             <<"areas " \o Join(st.areas, ",")>>
=============================================================================
