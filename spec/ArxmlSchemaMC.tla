---------------------------- MODULE ArxmlSchemaMC ----------------------------
(* One state per element to try; each is emitted with its XML.              *)
(* (No variable may be named like a record field: TLC then takes every      *)
(* access to that field for a state-dependent expression.)                  *)
EXTENDS ArxmlSchema
CONSTANTS Depth, WithPairs, Ver, Only, Base
VARIABLES vcls, vcase
vars == <<vcls, vcase>>
Todo == IF Only = {} THEN DOMAIN ClassTab \ Unheld ELSE Only
ASSUME TLCSet(2, Hosts)
ASSUME TLCSet(1, TLCEval([c \in Todo |-> TLCEval(Cases(c, Base, Depth, WithPairs))]))
CasesOf == TLCGet(1)
Init == vcls \in (IF Only = {} THEN DOMAIN ClassTab ELSE Only) /\ vcase = 0
Next == vcase = 0 /\ vcls \in Todo /\ vcase' \in 1..Len(CasesOf[vcls]) /\ UNCHANGED vcls
Spec == Init /\ [][Next]_vars
Root(n, i) == Named(Embed(n, 5, TLCGet(2)), n.c \o "_" \o Str(i))
EmitCase ==
  IF vcase = 0 THEN Emit([c |-> vcls, k |-> 0, fields |-> Fields(vcls)])
  ELSE LET r == TLCEval(Root(CasesOf[vcls][vcase], vcase))
       IN Writable(r, Ver) => Emit([c |-> vcls, k |-> vcase, n |-> r, u |-> Bool(EnumOk(r, Ver)), t |-> Ser(r, RootTag(r.c), Ver)])
=============================================================================
