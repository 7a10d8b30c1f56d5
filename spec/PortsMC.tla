------------------------------ MODULE PortsMC ------------------------------
(* Part "one": every way to ask for the communication specifications of one *)
(* port.  Part "more": histories of port creations and look-ups.             *)
EXTENDS Ports
CONSTANTS Part, Depth
VARIABLES st, hist
vars == <<st, hist>>
SeenAs == st
Ifs == << Iface("S1", "sr", <<El("a", FALSE)>>), Iface("S1q", "sr", <<El("a", TRUE)>>),
          Iface("S3", "sr", <<El("b", FALSE), El("a", TRUE), El("c", FALSE)>>), Iface("S0", "sr", <<>>),
          Iface("C1", "cs", <<El("a", FALSE)>>), Iface("C2", "cs", <<El("b", FALSE), El("a", FALSE)>>), Iface("C0", "cs", <<>>),
          Iface("M1", "ms", <<El("a", FALSE)>>), Iface("M0", "ms", <<>>), Iface("N1", "nv", <<El("a", FALSE)>>), Iface("P1", "par", <<El("a", FALSE)>>) >>
Conf == [ifs |-> Ifs]
Init == st = QInit(Conf) /\ hist = <<>>
Do(op) == LET r == QStep(st, op) IN
          /\ Len(hist) < Depth
          /\ st' = r.st /\ hist' = Append(hist, op)
          /\ Emit([c |-> Conf, h |-> hist', r |-> r.res, p |-> QProj(r.st)])
Create(side, n, i, p, r, un, alias) ==
  Do([op |-> "create", side |-> side, n |-> n, i |-> i, p |-> p, r |-> r, un |-> un, alias |-> alias])

Values(k) == CASE k = "init" -> {"n:5", "t:abc", "a:1,2", "c:/Consts/C", "bad"} [] k = "queue" -> {"0", "3", "bad"} [] k = "junk" -> {"1"}
               [] k \in {"e2e", "enh", "async"} -> {"true", "false"} [] OTHER -> {"0.5", "bad"}
Singles == {<<Set(k, v)>> : k \in {"junk"}, v \in {"1"}} \cup UNION {{<<Set(k, v)>> : v \in Values(k)} : k \in {Keys[i] : i \in 1..Len(Keys)}}
Pairs == {<<Set("init", "n:5"), Set("e2e", "true")>>, <<Set("e2e", "false"), Set("queue", "3")>>, <<Set("queue", "0"), Set("enh", "true"), Set("ack", "0.5")>>,
          <<Set("async", "false"), Set("enh", "false")>>, <<Set("init", "t:abc"), Set("e2e", "true"), Set("ack", "0.5")>>,
          <<Set("init", "c:/Consts/C"), Set("alive", "0.5"), Set("e2e", "false")>>, <<Set("init", "n:5"), Set("junk", "1")>>}
Settings == {<<>>} \cup Singles \cup Pairs
Few == {<<>>, <<Set("init", "n:5")>>, <<Set("queue", "3")>>, <<Set("e2e", "true")>>, <<Set("timeout", "0.5")>>, <<Set("enh", "true")>>}
Objects == {Ready("send", "a", <<Set("init", "n:5")>>), Ready("server", "b", <<Set("queue", "3")>>), Ready("nvprov", "a", <<>>), Ready("parprov", "a", <<>>),
            Ready("modesend", "a", <<Set("enh", "true")>>), Ready("recvq", "a", <<Set("queue", "0")>>), Ready("client", "x", <<>>),
            Ready("nvreq", "a", <<>>), Ready("parreq", "a", <<>>), Ready("moderecv", "a", <<>>), Ready("junk", "", <<>>)}
Names == {"a", "b", "c", "x"}
Asked == {<<Ask(n, s)>> : n \in Names, s \in Few} \cup {<<Ask(n, s), Ask(m, t)>> : n \in {"a", "b"}, m \in {"b", "c", "x"}, s \in Few, t \in {<<>>, <<Set("e2e", "false")>>}}
          \cup {<<Ask("c", <<Set("init", "a:1,2")>>), Ask("b", <<>>), Ask("a", <<Set("e2e", "true")>>)>>}
OnceEach(items) == \A i, j \in 1..Len(items) : items[i].t = "" /\ items[j].t = "" /\ items[i].n = items[j].n => i = j
Reqs == {NoReq} \cup {Req("flat", <<Ask("", s)>>) : s \in Settings} \cup {Req("named", x) : x \in {y \in Asked : OnceEach(y)} \cup {<<>>}}
        \cup {Req("list", x) : x \in {y \in Asked : OnceEach(y)} \cup {<<>>}}
        \cup {Req("list", <<o, p>>) : o \in Objects, p \in Objects} \cup {Req("list", <<o>> \o y) : o \in {q \in Objects : q.t \in {"send", "client"}}, y \in {z \in Asked : OnceEach(z)}}
        \cup {Req("list", <<Ask("a", <<>>), o, Ask("b", <<>>)>>) : o \in Objects}
(* a port of both sides takes settings or ready-made specifications of the right side *)
SideReqs(side) == {NoReq, Req("flat", <<Ask("", <<>>)>>), Req("named", <<Ask("b", <<Set("e2e", "true")>>), Ask("a", <<>>)>>), Req("named", <<Ask("x", <<>>)>>)}
                  \cup {Req("flat", <<Ask("", s)>>) : s \in Pairs}
                  \cup {Req("object", <<o>>) : o \in Objects}
                  \cup {Req("list", <<o, p>>) : o \in {q \in Objects : q.t \in (IF side = "P" THEN ProvideKinds ELSE RequireKinds)},
                                                p \in {q \in Objects : q.t \in (IF side = "P" THEN ProvideKinds ELSE RequireKinds) /\ q.n = "a"}}
One == Part = "one" /\ \E i \in 1..Len(Ifs) :
  \/ \E o \in Objects : LET r == Req("object", <<o>>) IN
       (o.t \in ProvideKinds /\ Create("P", "p", i, r, NoReq, "", FALSE)) \/ (o.t \in RequireKinds /\ Create("R", "p", i, NoReq, r, "", FALSE))
  \/ \E r \in Reqs : Create("P", "p", i, r, NoReq, "", FALSE) \/ Create("R", "p", i, NoReq, r, "", FALSE)
  \/ \E a \in SideReqs("P"), b \in SideReqs("R") : (a.form \notin {"object", "list"} \/ b.form \in {"none", "flat"}) /\ Create("PR", "p", i, a, b, "", FALSE)
  \/ \E u \in {"", "true", "false"} : \E al \in BOOLEAN : Create("R", "p", i, NoReq, Req("named", <<Ask("b", <<>>)>>), u, al)
                                                          \/ Create("P", "p", i, Req("flat", <<Ask("", <<Set("e2e", "true")>>)>>), NoReq, "", al)
More == Part = "more" /\ \E i \in {1, 3, 6, 8} : \E n \in {"p", "q", "r"} :
  First(st.ports, LAMBDA p : p.n = n) = 0 /\
  LET flat == Req("flat", <<Ask("", <<Set("e2e", "true")>>)>>) named == Req("named", <<Ask("b", <<>>)>>)
  IN \/ Create("P", n, i, flat, NoReq, "", TRUE) \/ Create("P", n, i, named, NoReq, "", FALSE)
     \/ Create("R", n, i, NoReq, named, "true", TRUE) \/ Create("R", n, i, NoReq, Req("named", <<Ask("x", <<>>)>>), "", FALSE)
     \/ Create("PR", n, i, NoReq, named, "", FALSE)
Next == One \/ More
Spec == Init /\ [][Next]_vars

Asking == IF Part = "one" THEN <<>>
          ELSE LET names == <<"p", "q", "r", "zz">> Q(q, n, e) == [q |-> q, n |-> n, e |-> e]
               IN Flat(Map(names, LAMBDA n : <<Q("p", n, ""), Q("r", n, ""), Q("find", n, ""), Q("modes", n, "")>> \o
                            Map(<<"", "a", "b", "x">>, LAMBDA e : Q("element", n, e)) \o Map(<<"", "a", "b", "x">>, LAMBDA e : Q("operation", n, e))))
                  \o <<Q("side", "P", ""), Q("side", "R", ""), Q("side", "PR", "")>>
EmitAsking == Asking = <<>> \/ Emit([c |-> Conf, h |-> hist, q |-> Asking, qr |-> Map(Asking, LAMBDA q : QAsk(st, q))])

(* on the specification: every specification is of the side and kind its interface element demands *)
Matching == \A k \in 1..Len(st.ports) : LET p == st.ports[k] IN
  /\ \A j \in 1..Len(p.prov) : p.prov[j].t \in ProvideKinds
  /\ \A j \in 1..Len(p.req) : p.req[j].t \in RequireKinds
  /\ p.side = "P" => p.req = <<>>
  /\ p.side = "R" => p.prov = <<>>
OnlyAdded == [][SubSeq(st'.ports, 1, Len(st.ports)) = st.ports /\ Len(st'.ports) <= Len(st.ports) + 1]_vars
=============================================================================
