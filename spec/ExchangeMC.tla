----------------------------- MODULE ExchangeMC -----------------------------
(* Part "faults": every package of Size items in a row, read in every way.   *)
(* Part "trees": every small document, written and read back in every form.  *)
(* Part "uses": histories of uses of one reader and one writer.              *)
EXTENDS Exchange
CONSTANTS Part, Depth, Size
VARIABLES st, hist, conf
vars == <<st, hist, conf>>
SeenAs == <<st, hist>>    \* what was done before is told apart: it must not matter
Proses == {<<Item("prose", "g", v)>> : v \in DOMAIN Prose}
Rd(w, f, v) == [warn |-> w, full |-> f, ver |-> v]
Confs == IF Part = "faults" THEN {[readers |-> <<Rd(w, f, 51)>>, writers |-> <<51>>] : w \in BOOLEAN, f \in BOOLEAN}
         ELSE IF Part = "trees" THEN {[readers |-> <<Rd(TRUE, FALSE, 51)>>, writers |-> <<51>>]}
         ELSE {[readers |-> <<Rd(TRUE, FALSE, v)>>, writers |-> <<v>>] : v \in {48, 51}}
Init == conf \in Confs /\ st = XInit(conf) /\ hist = <<>>
Do(op) == LET r == XStep(st, op) IN
          /\ Len(hist) < Depth
          /\ st' = r.st /\ hist' = Append(hist, op) /\ UNCHANGED conf
          /\ Emit([c |-> conf, h |-> hist', r |-> r.res, p |-> XProj(r.st)])
U(n) == Item("unit", n, "")
Faults == {"noname", "number", "enum", "factor", "bool", "dest", "nosuchdest", "inner", "deep", "interval"}
MoreFaults == {"nodest", "nolanguage", "language", "inline", "emptynumber", "twovalues", "novalue", "twokinds", "modes"}
Faulty == {<<Item("bad", "a", f), U("a")>> : f \in MoreFaults} \cup {<<U("a"), Item("bad", "b", f), U("c")>> : f \in MoreFaults}
Items == {U("a"), U("A"), Item("admin", "a", "language"), Item("admin", "f", "empty group"), Item("prose", "g", "L-2 FT"), Item("prose", "h", "L-1 XREF"), Item("base", "b", "8"), Item("swc", "a", "new"), Item("swc", "c", "old"), Item("arr", "d", "")} \cup
         {Item("inner", "i", "FOO-BAR"), Item("inner", "j", "QUX"), Item("inner", "k", "FOO-BAR")} \cup
         {Item("foreign", "a", t) : t \in {"SYSTEM", "SYSTEM-SIGNAL"}} \cup
         {Item("remark", "", t) : t \in {"comment", "pi", "text"}} \cup {Item("bad", "a", f) : f \in Faults}
Fair(s) == \A i, j \in 1..Len(s) : s[i].k = s[j].k /\ s[i].k \in {"inner", "prose"} /\ i # j => s[i].n # s[j].n
Rows == {s \in [1..Size -> Items] : Fair(s)}
(* the row alone; in a sub-package after a good unit; before another package *)
Around(row) == { <<Pkg("P", FALSE, row, <<>>)>>,
                 <<Pkg("P", TRUE, <<U("a"), U("z")>>, <<Pkg("Q", FALSE, row \o <<U("y")>>, <<>>), Pkg("R", TRUE, <<Item("foreign", "s", "SYSTEM"), U("a")>>, <<>>)>>)>>,
                 <<Pkg("P", FALSE, row, <<Pkg("Q", FALSE, <<U("a")>>, <<>>)>>), Pkg("S", FALSE, <<U("a")>>, <<>>)>> }
ReadFaults == Part = "faults" /\ \E row \in Rows \cup (IF Size = 2 THEN Proses \cup Faulty ELSE {}) : \E ps \in Around(row) : \E v \in (IF Size = 2 /\ Len(ps) = 1 /\ ps[1].subs = <<>> THEN {0, 48} ELSE {0}) :
  \/ Do([op |-> "read", r |-> 1, src |-> [ver |-> v, pkgs |-> ps], form |-> "str", stop |-> FALSE, broken |-> FALSE])
  \/ (conf.readers[1].warn \/ v = 48) /\ Len(ps) = 1 /\
       Do([op |-> "read", r |-> 1, src |-> [ver |-> v, pkgs |-> ps], form |-> "file", stop |-> (v = 0), broken |-> FALSE])

ElsSet == {<<>>, <<U("b"), U("a")>>, <<Item("base", "a", "16"), Item("arr", "b", ""), Item("swc", "c", "area")>>} \cup
          (IF Size > 2 THEN {<<Item("swc", "c", "none")>>, <<Item("swc", "x", "area"), U("a")>>} ELSE {})
Leafs == {Pkg(n, FALSE, e, <<>>) : n \in {"A", "B"}, e \in ElsSet}
Twos(S) == {<<p, q>> : p, q \in S}
Named(s) == \A i, j \in 1..Len(s) : i # j => s[i].n # s[j].n
Mids == Leafs \cup {Pkg(n, FALSE, e, s) : n \in {"A", "C"}, e \in (IF Size > 2 THEN ElsSet ELSE {<<>>, <<U("b")>>}),
                                            s \in {<<p>> : p \in Leafs} \cup {t \in Twos(Leafs) : Named(t)}}
Trees == {<<>>} \cup {<<p>> : p \in Mids} \cup {t \in {<<p, q>> : p \in Mids, q \in Leafs} : Named(t)} \cup
         {<<Pkg("A", FALSE, <<U("x")>>, <<Pkg("B", FALSE, <<>>, <<p>>)>>)>> : p \in Mids}
BuildTree == Part = "trees" /\ hist = <<>> /\ \E ps \in Trees : \E v \in 48..51 : Do([op |-> "build", doc |-> [ver |-> v, pkgs |-> ps]])
Cycle == Part = "trees" /\ Len(hist) = 1 /\ \E f \in {"str", "file", "bare"} : Do([op |-> "cycle", d |-> 1, form |-> f])

(* a few telling texts, elements and documents *)
Mixed == <<Pkg("P", TRUE, <<Item("swc", "a", "old"), Item("swc", "b", "new"), Item("arr", "c", ""), Item("inner", "i", "FOO-BAR")>>, <<>>)>>
Srcs == {[ver |-> 48, pkgs |-> Mixed], [ver |-> 51, pkgs |-> Mixed], [ver |-> 0, pkgs |-> Mixed],
         [ver |-> 50, pkgs |-> <<Pkg("P", FALSE, <<Item("bad", "x", "number"), Item("foreign", "f", "SYSTEM"), U("u")>>, <<>>)>>]}
Uses == Part = "uses" /\
  \/ \E s \in Srcs : \E f \in (IF s.ver = 48 THEN {"str", "file"} ELSE IF s.ver = 50 THEN {"file"} ELSE {"str"}) : Do([op |-> "read", r |-> 1, src |-> s, form |-> f, stop |-> FALSE, broken |-> FALSE])
  \/ \E s \in Srcs : s.ver \in {48, 50} /\ Do([op |-> "read", r |-> 1, src |-> s, form |-> "str", stop |-> TRUE, broken |-> FALSE])
  \/ \E s \in Srcs : s.ver = 48 /\ Do([op |-> "read", r |-> 1, src |-> s, form |-> "file", stop |-> FALSE, broken |-> TRUE])
  \/ \E i \in {Item("swc", "e", "old"), Item("swc", "e", "new"), Item("arr", "e", ""), Item("inner", "e", "FOO-BAR"), Item("bad", "e", "number")} :
        Do([op |-> "readelem", r |-> 1, item |-> i])
  \/ \E d \in 1..Len(st.docs) : \/ \E f \in {"str", "bare", "file"} : Do([op |-> "write", w |-> 1, d |-> d, form |-> f])
                                \/ Do([op |-> "edit", d |-> d, n |-> "z"])
  \/ \E v \in {48, 51} : Len(st.docs) < 2 /\ Do([op |-> "build", doc |-> [ver |-> v, pkgs |-> <<Pkg("P", FALSE, <<Item("swc", "a", "area"), Item("arr", "c", "")>>, <<>>)>>]])
  \/ \E i \in {Item("swc", "e", "area"), Item("arr", "e", ""), U("u")} : \E f \in (IF i.k = "unit" THEN {"str"} ELSE {"str", "file"}) :
        Do([op |-> "writeelem", w |-> 1, item |-> i, form |-> f])
Next == ReadFaults \/ BuildTree \/ Cycle \/ Uses
Spec == Init /\ [][Next]_vars

(* on the specification: a document never holds two elements of a name in a package, *)
(* and what is remembered are the documents alone, which no use of a reader or writer changes *)
RECURSIVE Once(_)
Once(p) == Distinct(Map(p.els, LAMBDA i : i.n)) /\ \A i \in 1..Len(p.subs) : Once(p.subs[i])
Kept == \A d \in 1..Len(st.docs) : \A i \in 1..Len(st.docs[d].pkgs) : Once(st.docs[d].pkgs[i])
NothingRemembered == [][/\ st'.rd = st.rd /\ st'.wr = st.wr
                        /\ hist'[Len(hist')].op # "edit" => SubSeq(st'.docs, 1, Len(st.docs)) = st.docs]_vars
=============================================================================
