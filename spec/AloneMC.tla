------------------------------ MODULE AloneMC ------------------------------
(* One state per element to try; each is emitted with the tag it goes by.    *)
EXTENDS Alone
CONSTANTS Depth, Ver, Base
VARIABLES vcls, vcase
vars == <<vcls, vcase>>
ASSUME TLCSet(1, TLCEval([c \in Lone |-> TLCEval(Cases(c, Base, Depth, FALSE))]))
ASSUME TLCSet(2, TagsOf)
CasesOf == TLCGet(1)
RefNames == {LoneRefs[i].c : i \in 1..Len(LoneRefs)}
RefOf(c) == LoneRefs[First(LoneRefs, LAMBDA r : r.c = c)]
RefNode(c, i) == Atom("=ref", "/a/" \o Str(i) \o "/B", RefTab[c][i])
Init == vcls \in Lone \cup NoText \cup RefNames /\ vcase = 0
Next == vcase = 0 /\ vcls \notin NoText /\ vcase' \in 1..(IF vcls \in RefNames THEN Len(RefTab[vcls]) ELSE Len(CasesOf[vcls])) /\ UNCHANGED vcls
Spec == Init /\ [][Next]_vars
Rec(n, t, asked, reads, toks) == [c |-> vcls, k |-> vcase, n |-> n, tag |-> t, asked |-> asked, reads |-> reads, t |-> toks]
EmitCase ==
  IF vcase = 0 THEN (IF vcls \in RefNames THEN TRUE ELSE Emit([c |-> vcls, k |-> 0, fields |-> Fields(vcls)]))
  ELSE IF vcls \in RefNames THEN LET r == RefOf(vcls) n == RefNode(vcls, vcase) IN Emit(Rec(n, r.t, r.asked, "tag", SerRef(n, r.t)))
  ELSE LET n == CasesOf[vcls][vcase]
           ts == TLCGet(2)[vcls]
           t == ts[(vcase % Len(ts)) + 1]
       IN Writable(n, Ver) /\ EnumOk(n, Ver) => Emit(Rec(n, t, IF vcls \in Asked THEN t ELSE "", Reads(vcls, t), Ser(n, t, Ver)))
(* wherever it stands, what it says is the same: only the tag differs *)
Same == vcase > 0 /\ vcls \in Lone => LET n == CasesOf[vcls][vcase] ts == TLCGet(2)[vcls] IN
          \A i \in 1..Len(ts) : Tail(Ser(n, ts[i], Ver)) = Tail(Ser(n, ts[1], Ver))
=============================================================================
