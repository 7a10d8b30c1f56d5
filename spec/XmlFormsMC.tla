----------------------------- MODULE XmlFormsMC -----------------------------
(* One state per element and way of writing it; each is emitted.            *)
EXTENDS XmlForms
CONSTANTS Depth, Base, AllWays, Only
VARIABLES vcls, vcase, vway
vars == <<vcls, vcase, vway>>
Ver == 51
Todo == IF Only = {} THEN DOMAIN ClassTab \ Unheld ELSE Only
ASSUME TLCSet(2, Hosts)
ASSUME TLCSet(1, TLCEval([c \in Todo |-> TLCEval(Cases(c, Base, Depth, FALSE))]))
CasesOf == TLCGet(1)
Root(n, i) == Named(Embed(n, 5, TLCGet(2)), n.c \o "_" \o Str(i))
WaysOf(k) == WaysFor(k, AllWays)
Init == vcls \in Todo /\ vcase = 0 /\ vway = 0
Next == /\ vcase = 0 /\ UNCHANGED vcls
        /\ vcase' \in 1..Len(CasesOf[vcls])
        /\ vway' \in 1..Len(WaysOf(vcase'))
Spec == Init /\ [][Next]_vars
Element == Root(CasesOf[vcls][vcase], vcase)
Tokens(r) == Document(r.c, Ser(r, RootTag(r.c), Ver))
(* no way of writing an element changes what the text says *)
SaysTheSame ==
  IF vcase = 0 THEN Emit([c |-> vcls, k |-> 0, fields |-> Fields(vcls)])
  ELSE LET r == TLCEval(Element) IN
       EnumOk(r, Ver) =>
         LET t == TLCEval(Tokens(r))
             w == WaysOf(vcase)[vway]
             v == TLCEval(Vary(w, t))
         IN /\ Meaning(v) = t
            /\ Emit([c |-> vcls, k |-> vcase, n |-> r, w |-> SetToSeq(w), f |-> Form(vcase * 7 + vway), t |-> v])
=============================================================================
