---------------------------- MODULE TypeModelMC ----------------------------
(* Part "requests": one catalogue with every kind of type, good and bad, and  *)
(* every sequence of requests.                                               *)
(* Part "graphs": every chain of three types, each built on the ones before, *)
(* requested in every order.                                                 *)
EXTENDS TypeModel
CONSTANTS Part_, Depth
VARIABLES st, hist
vars == <<st, hist>>
SeenAs == <<st, Len(hist)>>
El(n, k, to, size) == [n |-> n, k |-> k, to |-> to, size |-> size, pol |-> "", hand |-> "", sem |-> "", alt |-> ""]
Ty(r, n, k, to, els) == [r |-> r, n |-> n, k |-> k, to |-> to, tcat |-> "", native |-> <<>>, sym |-> "", emit |-> "", alt |-> "", els |-> els]
B(n, native) == [Ty("/B/" \o n, n, "base", "", <<>>) EXCEPT !.native = native]
I(n, k, to, els) == Ty("/I/" \o n, n, k, to, els)
Ptr(n, tcat, to) == [I(n, "DATA_REFERENCE", to, <<>>) EXCEPT !.tcat = tcat]
Emitter(t, e) == [t EXCEPT !.emit = e]
Symbol(t, s) == [t EXCEPT !.sym = s]
Alt(t, r) == [t EXCEPT !.alt = r]   \* a further variant of the properties, which does not count
Zoo == [types |-> <<
  B("uint8", <<>>), B("Own", <<"unsigned", "char">>), Emitter(I("uint8", "VALUE", "/B/uint8", <<>>), "Platform"),
  Symbol(I("Z", "VALUE", "/B/Own", <<>>), "Zsym"), Emitter(I("A", "TYPE_REFERENCE", "/I/Z", <<>>), "Bsw"), I("Arr", "ARRAY", "", <<El("e", "TYPE_REFERENCE", "/I/A", "3")>>),
  I("Grid", "ARRAY", "", <<[El("x", "VALUE", "/B/uint8", "2") EXCEPT !.sem = "FIXED_SIZE"], [El("y", "VALUE", "/B/Own", "4") EXCEPT !.pol = "PAYLOAD_AS_ARRAY", !.hand = "ALL_INDICES_SAME_ARRAY_SIZE"]>>),
  I("Rec", "STRUCTURE", "", <<El("a", "VALUE", "/B/Own", ""), El("b", "TYPE_REFERENCE", "/I/Arr", ""), El("c", "TYPE_REFERENCE", "/I/uint8", "")>>),
  Ptr("P", "TYPE_REFERENCE", "/I/Rec"), Ptr("Q", "VALUE", "/B/uint8"),
  Symbol(Ty("/I2/Z", "Z", "STRUCTURE", "", <<El("z", "TYPE_REFERENCE", "/I/Z", "")>>), "Zother"),
  I("Vars", "STRUCTURE", "", <<Alt(El("a", "VALUE", "/B/Own", ""), "/B/uint8"), Alt(El("b", "TYPE_REFERENCE", "/I/Z", ""), "/I/none")>>),
  I("VarArr", "ARRAY", "", <<El("x", "VALUE", "/B/uint8", "2"), Alt(El("y", "VALUE", "/B/Own", "3"), "/B/none")>>), Alt(I("VarZ", "VALUE", "/B/Own", <<>>), "/B/uint8"),
  Alt(I("VarRef", "TYPE_REFERENCE", "/I/Z", <<>>), "/I/Rec"), Alt(Ptr("VarPtr", "VALUE", "/B/Own"), "/B/uint8"),
  I("NoBase", "VALUE", "/B/none", <<>>), I("NoRef", "TYPE_REFERENCE", "", <<>>), I("Union", "UNION", "", <<>>), I("NoCat", "", "", <<>>), I("Loop", "TYPE_REFERENCE", "/I/Loop", <<>>),
  I("BadRec", "STRUCTURE", "", <<El("a", "TYPE_REFERENCE", "/I/A", ""), El("b", "TYPE_REFERENCE", "/I/NoRef", "")>>),
  I("BadArr", "ARRAY", "", <<El("a", "VALUE", "/B/Own", "")>>), I("NoEls", "ARRAY", "", <<>>), I("UnionRec", "STRUCTURE", "", <<El("u", "UNION", "", "")>>),
  [Ptr("BadPtr", "FUNCTION", "/I/Z") EXCEPT !.sym = "x"], Ty("/U/unit", "unit", "unit", "", <<>>), Ty("", "loose", "VALUE", "/B/Own", <<>>), Ty("", "adrift", "base", "", <<>>) >>]
Words == <<"B1", "B2">>
Bases == <<B("B1", <<>>), B("B2", <<"signed", "int">>)>>
Names == {<<"Ta", "Tb", "Tc">>, <<"Tc", "Tb", "Ta">>, <<"Tb", "Tc", "Ta">>}
(* a type named n, on top of the types named below *)
Kinds(n, below) ==
  {I(n, "VALUE", "/B/B2", <<>>), I(n, "STRUCTURE", "", <<El("m", "VALUE", "/B/B1", ""), El("k", "VALUE", "/B/B2", "")>>)}
  \cup UNION {{I(n, "TYPE_REFERENCE", b, <<>>), I(n, "ARRAY", "", <<El("e", "TYPE_REFERENCE", b, "2")>>), Ptr(n, "TYPE_REFERENCE", b),
               I(n, "STRUCTURE", "", <<El("m", "TYPE_REFERENCE", b, ""), El("k", "VALUE", "/B/B2", "")>>)} : b \in below}
  \cup {I(n, "STRUCTURE", "", <<El("m", "TYPE_REFERENCE", a, ""), El("k", "TYPE_REFERENCE", b, "")>>) : <<a, b>> \in {x \in below \X below : x[1] # x[2]}}
Graphs == {[types |-> Bases \o <<t1, Emitter(t2, e), t3>>] :
           <<t1, t2, t3, e>> \in UNION {Kinds(n[1], {}) \X Kinds(n[2], {"/I/" \o n[1]}) \X Kinds(n[3], {"/I/" \o n[1], "/I/" \o n[2]}) \X {"", "Platform"} : n \in Names}}
Init == st \in {TInit1(c) : c \in IF Part_ = "requests" THEN {Zoo} ELSE Graphs} /\ hist = <<>>
Do(op) == LET r == MStep(st, op) IN
          /\ Len(hist) < Depth
          /\ st' = r.st /\ hist' = Append(hist, op)
          /\ Emit([c |-> st.c, h |-> hist', r |-> r.res, p |-> MProj(r.st), src |-> r.st.src])
ByIndex(i, src) == Do([op |-> "request", how |-> "index", i |-> i, r |-> "", src |-> src])
ByRef(r, src) == Do([op |-> "request", how |-> "ref", i |-> 0, r |-> r, src |-> src])
Refs == {st.c.types[i].r : i \in 1..Len(st.c.types)} \ {""}
Requests == Part_ = "requests" /\
  \/ \E i \in 1..Len(st.c.types) : ByIndex(i, TRUE)
  \/ \E r \in {"/I/Rec", "/I/Z", "/B/Own", "/I/none", "/I/Rec/a", "/I/NoRef"} : \E src \in BOOLEAN : ByRef(r, src)
Orders == Part_ = "graphs" /\ \E i \in 3..5 : ByIndex(i, TRUE)
Next == Requests \/ Orders
Spec == Init /\ [][Next]_vars

(* on the specification: what is created is closed under dependency, and what is generated can be put in an order *)
Whole == \A r \in Closure(st.c, st.got, {}) : Ok(st.c, r, {})
RECURSIVE Placed(_)
Placed(left) == LET ready == {r \in left : Named(At(st.c, r)) \cap left = {}} IN left = {} \/ (ready # {} /\ Placed(left \ ready))
Orderly == Placed(Emitted(st.c, st.src))
OnlyMore == [][st.got \subseteq st'.got /\ st.src \subseteq st'.src]_vars
=============================================================================
