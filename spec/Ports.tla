-------------------------------- MODULE Ports --------------------------------
(* Ports of a software component and the communication specifications they  *)
(* get from their port interface (C16).                                      *)
(*                                                                           *)
(* An interface is [n, kind, els]; kind: sr (sender-receiver, els are data   *)
(* elements, q: queued), cs (client-server, els are operations), ms (mode    *)
(* switch, els is its mode group, if any), nv, par.  A request for           *)
(* communication specifications is [form, items]:                            *)
(*   none    nothing asked for                                               *)
(*   flat    settings for the interface's only element (items has one entry) *)
(*   named   settings by element name                                        *)
(*   list    a list of ready-made specifications and (name, settings) pairs  *)
(*   object  one ready-made specification                                    *)
(* An item is [t, n, s]: t "" for settings s of the element named n, else    *)
(* the kind of a ready-made specification.                                   *)
EXTENDS Kit

El(n, q) == [n |-> n, q |-> q]
Iface(n, kind, els) == [n |-> n, kind |-> kind, els |-> els]
Set(k, v) == [k |-> k, v |-> v]
Ask(n, s) == [t |-> "", n |-> n, s |-> s]
Ready(t, n, s) == [t |-> t, n |-> n, s |-> s]
Req(form, items) == [form |-> form, items |-> items]
NoReq == Req("none", <<>>)

ProvideKinds == {"send", "sendq", "server", "modesend", "nvprov", "parprov"}
RequireKinds == {"recv", "recvq", "client", "moderecv", "nvreq", "parreq"}
Keys == <<"init", "e2e", "ack", "queue", "enh", "async", "alive", "timeout">>
Takes(kind) == CASE kind = "send" -> {"init", "e2e", "ack"} [] kind = "sendq" -> {"e2e", "ack"} [] kind = "server" -> {"queue"}
                 [] kind = "modesend" -> {"enh", "ack", "queue"} [] kind = "recv" -> {"init", "e2e", "alive"}
                 [] kind = "recvq" -> {"e2e", "queue"} [] kind = "client" -> {"timeout"} [] kind = "moderecv" -> {"enh", "async"}
                 [] OTHER -> {}
Fits(kind, s) == \A i \in 1..Len(s) : s[i].k \in Takes(kind) /\ s[i].v # "bad"
Kind(itf, e, side) == CASE itf.kind = "sr" -> (IF side = "P" THEN (IF e.q THEN "sendq" ELSE "send") ELSE IF e.q THEN "recvq" ELSE "recv")
                        [] itf.kind = "cs" -> (IF side = "P" THEN "server" ELSE "client")
                        [] OTHER -> (IF side = "P" THEN "modesend" ELSE "moderecv")
Makes(itf) == itf.kind \in {"sr", "cs", "ms"} /\ itf.els # <<>>
Single(itf) == Len(itf.els) = 1

Refused == [ok |-> FALSE, specs |-> <<>>]
Made(specs) == [ok |-> TRUE, specs |-> specs]
SpecOf(itf, e, side, s) == Ready(Kind(itf, e, side), e.n, s)
NamedAs(items, n) == items[First(items, LAMBDA i : i.n = n)]
(* one specification for every element asked for, in the order of the interface *)
ByName(itf, side, items) ==
  IF ~Makes(itf) \/ (\E i \in 1..Len(items) : First(itf.els, LAMBDA e : e.n = items[i].n) = 0) THEN Refused
  ELSE LET wanted == Keep(itf.els, LAMBDA e : First(items, LAMBDA i : i.n = e.n) > 0) IN
       IF \E i \in 1..Len(wanted) : ~Fits(Kind(itf, wanted[i], side), NamedAs(items, wanted[i].n).s) THEN Refused
       ELSE Made(Map(wanted, LAMBDA e : SpecOf(itf, e, side, NamedAs(items, e.n).s)))
Specs(itf, side, req) ==
  CASE req.form = "none" -> Made(<<>>)
    [] req.form = "object" -> IF req.items[1].t \in (IF side = "P" THEN ProvideKinds ELSE RequireKinds) THEN Made(req.items) ELSE Refused
    [] req.form = "flat" -> LET s == req.items[1].s IN
         IF ~Makes(itf) THEN Refused
         ELSE IF Single(itf) THEN (IF Fits(Kind(itf, itf.els[1], side), s) THEN Made(<<SpecOf(itf, itf.els[1], side, s)>>) ELSE Refused)
         ELSE IF s = <<>> THEN Made(<<>>) ELSE Refused
    [] req.form = "named" ->
         IF ~Makes(itf) THEN Refused
         ELSE IF Single(itf) THEN (IF req.items = <<>> THEN Made(<<SpecOf(itf, itf.els[1], side, <<>>)>>) ELSE Refused)
         ELSE ByName(itf, side, req.items)
    [] OTHER ->
         LET ready == Keep(req.items, LAMBDA i : i.t # "")
             asked == Keep(req.items, LAMBDA i : i.t = "")
             made == IF asked = <<>> THEN Made(<<>>) ELSE ByName(itf, side, asked)
         IN IF (\E i \in 1..Len(ready) : ready[i].t \notin (IF side = "P" THEN ProvideKinds ELSE RequireKinds)) \/ ~made.ok THEN Refused
            ELSE Made(ready \o made.specs)

-----------------------------------------------------------------------------
(* c: [ifs]: the interfaces of the workspace *)
QInit(c) == [ifs |-> c.ifs, ports |-> <<>>]
Out(st, res) == [st |-> st, res |-> res]
Created(st, op) ==
  LET itf == st.ifs[op.i]
      prov == IF op.side = "R" THEN Made(<<>>) ELSE Specs(itf, "P", op.p)
      req == IF op.side = "P" THEN Made(<<>>) ELSE Specs(itf, "R", op.r)
  IN IF ~prov.ok \/ ~req.ok THEN Out(st, "err")
     ELSE Out([st EXCEPT !.ports = Append(@, [side |-> op.side, n |-> op.n, i |-> op.i, un |-> (IF op.side = "R" THEN op.un ELSE ""),
                                             prov |-> prov.specs, req |-> req.specs])], "ok")
Sets(s) == Join(Flat(Map(Keys, LAMBDA k : Map(Keep(s, LAMBDA x : x.k = k), LAMBDA x : " " \o k \o "=" \o x.v))), "")
Shown(specs) == Join(Map(specs, LAMBDA x : x.t \o " " \o x.n \o Sets(x.s)), ", ")
QProj(st) == Map(st.ports, LAMBDA p : p.side \o " " \o p.n \o " " \o st.ifs[p.i].n \o (IF p.un = "" THEN "" ELSE " un=" \o p.un) \o
                                      " [" \o Shown(p.prov) \o "] [" \o Shown(p.req) \o "]")

(* questions: a port by name (as provider, as requester, any), the ports of a side, what is behind a port *)
PortNo(st, n, sides) == First(st.ports, LAMBDA p : p.n = n /\ p.side \in sides)
Found(st, n, sides) == IF PortNo(st, n, sides) = 0 THEN "none" ELSE "port " \o Str(PortNo(st, n, sides))
Behind(st, n, kind, e) ==
  IF PortNo(st, n, {"P", "R", "PR"}) = 0 THEN "none"
  ELSE LET itf == st.ifs[st.ports[PortNo(st, n, {"P", "R", "PR"})].i] IN
       IF itf.kind # kind THEN "err"
       ELSE IF e = "" THEN (IF kind = "ms" /\ itf.els = <<>> THEN "none" ELSE IF Len(itf.els) = 1 THEN itf.n \o "/" \o itf.els[1].n ELSE "err")
       ELSE IF First(itf.els, LAMBDA x : x.n = e) = 0 THEN "none" ELSE itf.n \o "/" \o e
QAsk(st, q) == CASE q.q = "p" -> Found(st, q.n, {"P", "PR"})
                 [] q.q = "r" -> Found(st, q.n, {"R", "PR"})
                 [] q.q = "find" -> Found(st, q.n, {"P", "R", "PR"})
                 [] q.q = "side" -> Join(Map(Keep(st.ports, LAMBDA p : p.side = q.n), LAMBDA p : p.n), ",")
                 [] q.q = "element" -> Behind(st, q.n, "sr", q.e)
                 [] q.q = "operation" -> Behind(st, q.n, "cs", q.e)
                 [] OTHER -> Behind(st, q.n, "ms", "")
QStep(st, op) == IF "op" \in DOMAIN op THEN Created(st, op) ELSE Out(st, QAsk(st, op))
=============================================================================
