---------------------------- MODULE CompositionMC ----------------------------
(* Part "pairs": every two port paths, alone and after one connection.         *)
(* Part "grow": prototypes, ports and connections in every order.              *)
EXTENDS Composition
CONSTANTS Part, Depth
VARIABLES st, hist
vars == <<st, hist>>
SeenAs == st
Types == << Type("T1", "swc", <<Port("p", "P"), Port("r", "R"), Port("x", "PR"), Port("p_p", "P")>>),
            Type("T2", "comp", <<Port("p", "P"), Port("r", "R"), Port("q", "R")>>),
            Type("G", "gone", <<>>), Type("U", "unit", <<>>) >>
Proto(n, t) == [n |-> n, t |-> t]
Conf == IF Part = "pairs"
        THEN [types |-> Types, protos |-> <<Proto("A", "T1"), Proto("A_p", "T1"), Proto("B", "T2"), Proto("Z", "G"), Proto("U", "U")>>,
              ports |-> <<Port("op", "P"), Port("or", "R"), Port("ox", "PR"), Port("p", "P")>>]
        ELSE [types |-> Types, protos |-> <<>>, ports |-> <<>>]
Init == st = LInit(Conf) /\ hist = <<>>
Do(op) == LET r == LStep(st, op) IN
          /\ Len(hist) < Depth
          /\ st' = r.st /\ hist' = Append(hist, op)
          /\ Emit([c |-> Conf, h |-> hist', r |-> r.res, p |-> LProj(r.st)])
Connect(a, b) == Do([op |-> "connect", a |-> a, b |-> b])
AddProto(t, n) == Do([op |-> "proto", t |-> t, n |-> n])
AddPort(n, side) == Do([op |-> "port", n |-> n, side |-> side])

Inner(c, ps) == {Path(FALSE, <<c, p>>) : p \in ps}
AllPaths == Inner("A", {"p", "r", "x", "p_p", "zz"}) \cup Inner("A_p", {"p", "x", "r"}) \cup Inner("B", {"p", "r", "q"}) \cup Inner("Z", {"p"}) \cup Inner("U", {"p"})
            \cup {Path(FALSE, <<p>>) : p \in {"op", "or", "ox", "p", "zz", "A", ""}} \cup Inner("No", {"p"}) \cup Inner("A", {""})
            \cup {Path(TRUE, <<"op">>), Path(TRUE, <<"A", "p">>), Path(FALSE, <<"A", "p", "x">>), Path(TRUE, <<"">>)}
SomePaths == {Path(FALSE, <<"A", "p">>), Path(FALSE, <<"A", "x">>), Path(FALSE, <<"A", "p_p">>), Path(FALSE, <<"A_p", "p">>), Path(FALSE, <<"A_p", "r">>),
              Path(FALSE, <<"B", "r">>), Path(FALSE, <<"B", "q">>), Path(FALSE, <<"op">>), Path(FALSE, <<"or">>), Path(FALSE, <<"ox">>)}
Pairs == Part = "pairs" /\ IF hist = <<>> THEN \E a, b \in AllPaths : Connect(a, b) ELSE \E a, b \in SomePaths : Connect(a, b)
Fresh(n) == ~Used(st, n)
Grow == Part = "grow" /\
  \/ \E t \in {"T1", "T2"} : \E n \in {"", "A"} : Fresh(IF n = "" THEN t ELSE n) /\ AddProto(t, n)
  \/ \E n \in {"op", "A_p"} : \E side \in {"P", "R", "PR"} : Fresh(n) /\ AddPort(n, side)
  \/ \E a, b \in {Path(FALSE, <<"A", "p">>), Path(FALSE, <<"T2", "r">>), Path(FALSE, <<"T1", "x">>), Path(FALSE, <<"op">>), Path(FALSE, <<"A_p">>)} : Connect(a, b)
Next == Pairs \/ Grow
Spec == Init /\ [][Next]_vars

Asking == Map(<<"A", "A_p", "op", "p", "zz">> \o Map(st.cons, LAMBDA x : x.n), LAMBDA n : [op |-> "find", n |-> n])
EmitAsking == Emit([c |-> Conf, h |-> hist, q |-> Asking, qr |-> Map(Asking, LAMBDA q : LStep(st, q).res)])

(* on the specification: names are unique, ends exist and fit each other, nothing is connected twice *)
Unique == \A i, j \in 1..Len(Names(st)) : Names(st)[i] = Names(st)[j] => i = j
Fitting == \A i \in 1..Len(st.cons) : LET c == st.cons[i] IN
  /\ \A e \in {c.a, c.b} : e = Named(st, Path(FALSE, IF e.c = "" THEN <<e.p>> ELSE <<e.c, e.p>>)) /\ e.side # ""
  /\ c.kind \in {"assembly", "pass"} => Provides(c.a) /\ Requires(c.b) /\ (c.kind = "pass" <=> c.a.c = "" /\ c.b.c = "")
  /\ c.kind = "delegation" => ~Opposite(c.a, c.b) /\ c.a.c # "" /\ c.b.c = ""
OnlyAdded == [][SubSeq(st'.cons, 1, Len(st.cons)) = st.cons /\ Len(st'.cons) <= Len(st.cons) + 1]_vars
=============================================================================
