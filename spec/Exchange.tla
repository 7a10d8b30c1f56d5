------------------------------ MODULE Exchange ------------------------------
(* Documents going in and out: what a reader returns and reports for an      *)
(* ARXML text, what a writer emits for a document, and the fact that neither *)
(* keeps anything from one use to the next (C06, C07, C08).                  *)
(*                                                                           *)
(* A text (source) is [ver, pkgs]: the schema version it names, 0 if none,   *)
(* and its packages [n, odd, els, subs]; odd says that the package has a     *)
(* child the library does not support.  An item of els is [k, n, v]:         *)
(*   unit base swc arr    supported elements; v: the size of a base type,    *)
(*                        how the exclusive area of a runnable is written    *)
(*                        ("old" and "new" form, or "none")                  *)
(*   admin                a unit with admin data of form v                   *)
(*   prose                a unit with a description or introduction that has *)
(*                        an unsupported element v in the midst of its text  *)
(*   inner                a unit with an unsupported child with tag v        *)
(*   foreign              an unsupported element with tag v                  *)
(*   remark               a comment, processing instruction or stray text    *)
(*   bad                  a supported element that is malformed in way v     *)
(* A document is [ver, pkgs] of supported elements only (area: "area" or     *)
(* "none").  Reports name the number of the malformed or duplicate item in   *)
(* the text, or the unsupported tag.                                         *)
EXTENDS Kit

Item(k, n, v) == [k |-> k, n |-> n, v |-> v]
Pkg(n, odd, els, subs) == [n |-> n, odd |-> odd, els |-> els, subs |-> subs]
OldForm == "CAN-ENTER-EXCLUSIVE-AREA-REFS"
NewForm == "CAN-ENTERS"
OddTag == "REFERENCE-BASES"
DefaultVersion == 51
(* runnables list exclusive areas in another form before version 50 *)
FormOf(ver) == IF ver < 50 THEN "old" ELSE "new"
(* the way to pass an array that version 48 does not know *)
Malformed(i, ver) == i.k = "bad" \/ (i.k = "arr" /\ ver < 49)
Supported(i) == i.k \in {"unit", "base", "swc", "arr", "admin", "prose", "inner", "bad"}
Value(i, ver) == IF i.k \in {"inner", "admin", "prose"} THEN Item("unit", i.n, "")
                 ELSE IF i.k = "swc" THEN Item("swc", i.n, IF i.v = FormOf(ver) THEN "area" ELSE "none")
                 ELSE i
(* the unsupported tag inside a supported element, "" if there is none *)
Prose == ("L-2 FT" :> "FT") @@ ("L-2 TRACE-REF" :> "TRACE-REF") @@ ("L-2 XREF" :> "XREF") @@ ("L-1 FT" :> "FT") @@ ("L-1 STD" :> "STD")
         @@ ("L-1 TRACE-REF" :> "TRACE-REF") @@ ("L-1 XDOC" :> "XDOC") @@ ("L-1 XFILE" :> "XFILE") @@ ("L-1 XREF" :> "XREF")
         @@ ("L-1 XREF-TARGET" :> "XREF-TARGET") @@ ("L-5 XREF" :> "XREF")
InnerTag(i, ver) == IF i.k = "inner" THEN i.v ELSE IF i.k = "prose" THEN Prose[i.v]
                    ELSE IF i.k = "swc" /\ i.v # "none" /\ i.v # FormOf(ver) THEN (IF i.v = "old" THEN OldForm ELSE NewForm)
                    ELSE ""

(* acc: [els, tags, bad, k]: what is kept, unsupported tags met, malformed and duplicate items, items so far *)
RECURSIVE ReadEls(_, _, _), ReadPkg(_, _, _), ReadPkgs(_, _, _)
Tagged(acc, t) == IF t = "" THEN acc ELSE [acc EXCEPT !.tags = @ \cup {t}]
ReadItem(i, ver, acc) ==
  LET a == [acc EXCEPT !.k = @ + 1] IN
  IF i.k = "remark" THEN a
  ELSE IF i.k = "foreign" THEN Tagged(a, i.v)
  ELSE IF Malformed(i, ver) THEN [a EXCEPT !.bad = Append(@, a.k)]
  ELSE IF \E j \in 1..Len(a.els) : a.els[j].n = i.n THEN Tagged([a EXCEPT !.bad = Append(@, a.k)], InnerTag(i, ver))
  ELSE Tagged([a EXCEPT !.els = Append(@, Value(i, ver))], InnerTag(i, ver))
ReadEls(els, ver, acc) == IF els = <<>> THEN acc ELSE ReadEls(Tail(els), ver, ReadItem(els[1], ver, acc))
ReadPkgs(ps, ver, acc) ==
  IF ps = <<>> THEN [acc EXCEPT !.els = <<>>]
  ELSE LET r == ReadPkg(ps[1], ver, acc)
           more == ReadPkgs(Tail(ps), ver, [r EXCEPT !.pkgs = acc.pkgs \o <<r.pkg>>])
       IN more
ReadPkg(p, ver, acc) ==
  LET a == ReadEls(p.els, ver, [acc EXCEPT !.els = <<>>, !.k = @ + 1])
      s == ReadPkgs(p.subs, ver, [a EXCEPT !.pkgs = <<>>])
      t == IF p.odd THEN Tagged(s, OddTag) ELSE s
  IN [pkg |-> Pkg(p.n, FALSE, a.els, s.pkgs)] @@ [t EXCEPT !.els = <<>>]
Nothing == [els |-> <<>>, tags |-> {}, bad |-> <<>>, k |-> 0, pkgs |-> <<>>]

(* what a reader with settings [warn, full, ver] makes of a text; where: what its messages name as the file *)
Where(form, full) == IF form = "str" THEN "" ELSE IF full THEN "full" ELSE "base"
RECURSIVE Listed(_)
TagOrder == <<"CAN-ENTER-EXCLUSIVE-AREA-REFS", "CAN-ENTERS", "FOO-BAR", "FT", "QUX", "REFERENCE-BASES", "STD", "SYSTEM", "SYSTEM-SIGNAL", "TRACE-REF",
              "XDOC", "XFILE", "XREF", "XREF-TARGET">>
Listed(tags) == Keep(TagOrder, LAMBDA t : t \in tags)
Reports(r, rd, w) == Join(Map(r.bad, LAMBDA i : "bad " \o Str(i) \o " " \o w) \o
                          (IF rd.warn THEN Map(Listed(r.tags), LAMBDA t : "tag " \o t \o " " \o w) ELSE <<>>), "; ")
Read(src, rd) == LET ver == IF src.ver = 0 THEN rd.ver ELSE src.ver
                     r == ReadPkgs(src.pkgs, ver, Nothing)
                 IN [ver |-> ver, r |-> r, doc |-> [ver |-> ver, pkgs |-> r.pkgs]]

(* how documents and written texts are shown *)
Shown(i) == i.k \o " " \o i.n \o (IF i.v = "" THEN "" ELSE "=" \o i.v)
RECURSIVE ShownPkg(_)
ShownPkg(p) == p.n \o "(" \o Join(Map(p.els, Shown) \o Map(p.subs, ShownPkg), ",") \o ")"
ShownDoc(d) == Str(d.ver) \o ":" \o Join(Map(d.pkgs, ShownPkg), ",")
Written(i, ver) == IF i.k = "swc" /\ i.v = "area" THEN Item("swc", i.n, FormOf(ver)) ELSE i
RECURSIVE WrittenPkg(_, _), Writable(_, _)
WrittenPkg(p, ver) == Pkg(p.n, FALSE, Map(p.els, LAMBDA i : Written(i, ver)), Map(p.subs, LAMBDA s : WrittenPkg(s, ver)))
Writable(p, ver) == (\A i \in 1..Len(p.els) : ~Malformed(p.els[i], ver)) /\ (\A i \in 1..Len(p.subs) : Writable(p.subs[i], ver))
AllWritable(d) == \A i \in 1..Len(d.pkgs) : Writable(d.pkgs[i], d.ver)
(* the text a document is written as; only with its root attributes does it name the version *)
TextOf(d, form) == [ver |-> IF form = "bare" THEN 0 ELSE d.ver, pkgs |-> Map(d.pkgs, LAMBDA p : WrittenPkg(p, d.ver))]
ShownText(d, form) == ShownDoc(TextOf(d, form))
SchemaFile(ver) == "AUTOSAR_000" \o Str(ver) \o ".xsd"

-----------------------------------------------------------------------------
(* c: [readers, writers]: their settings; nothing else of them is remembered *)
XInit(c) == [rd |-> c.readers, wr |-> c.writers, docs |-> <<>>]
Out(st, res) == [st |-> st, res |-> res]
AddDoc(st, d) == [st EXCEPT !.docs = Append(@, d)]
XStep(st, op) ==
  CASE op.op = "build" -> Out(AddDoc(st, op.doc), "ok")
    [] op.op = "read" ->
         LET r == Read(op.src, st.rd[op.r]) IN
         IF op.broken \/ (op.stop /\ r.r.bad # <<>>) THEN Out(st, "err")
         ELSE Out(AddDoc(st, r.doc), "read " \o Reports(r.r, st.rd[op.r], Where(op.form, st.rd[op.r].full)))
    [] op.op = "readelem" ->
         LET rd == st.rd[op.r] i == op.item
             r == ReadItem(i, rd.ver, Nothing)
         IN IF Malformed(i, rd.ver) THEN Out(st, "err")
            ELSE Out(st, "read " \o Shown(r.els[1]) \o " " \o Reports(r, rd, ""))
    [] op.op = "write" ->
         IF op.d > Len(st.docs) THEN Out(st, "err")
         ELSE LET d == st.docs[op.d] IN
              IF AllWritable(d) THEN Out(st, "wrote " \o ShownText(d, op.form)) ELSE Out(st, "err")
    [] op.op = "writeelem" ->
         LET v == st.wr[op.w] IN
         IF Malformed(op.item, v) THEN Out(st, "err") ELSE Out(st, "wrote " \o Shown(Written(op.item, v)))
    [] op.op = "cycle" ->   \* write, read back, write what was read
         IF op.d > Len(st.docs) \/ ~AllWritable(st.docs[op.d]) THEN Out(st, "err")
         ELSE LET d == st.docs[op.d]
                  back == Read(TextOf(d, op.form), [warn |-> TRUE, full |-> FALSE, ver |-> DefaultVersion])
              IN Out(AddDoc(st, back.doc), SchemaFile(back.ver) \o
                     (IF AllWritable(back.doc) /\ TextOf(back.doc, op.form) = TextOf(d, op.form) THEN " again the same" ELSE " again"))
    [] OTHER ->             \* edit: one more unit in the first package of a document
         IF op.d > Len(st.docs) THEN Out(st, "err")
         ELSE IF st.docs[op.d].pkgs = <<>> \/ (\E i \in 1..Len(st.docs[op.d].pkgs[1].els) : st.docs[op.d].pkgs[1].els[i].n = op.n)
                 \/ (\E i \in 1..Len(st.docs[op.d].pkgs[1].subs) : st.docs[op.d].pkgs[1].subs[i].n = op.n) THEN Out(st, "err")
         ELSE Out([st EXCEPT !.docs[op.d].pkgs[1].els = Append(@, Item("unit", op.n, ""))], "ok")
XProj(st) == Map(st.docs, ShownDoc)
=============================================================================
