------------------------------ MODULE XmlForms ------------------------------
(* The many texts that say the same: XML leaves open how a document is laid *)
(* out, escaped, commented, encoded and prefixed, and none of it may change *)
(* what a reader makes of it (C29).                                         *)
(*                                                                          *)
(* A text is a sequence of lexical items:                                   *)
(*   "<TAG"  start tag             "/"  end tag        "/." empty-element tag*)
(*   "@N=V"  attribute             "'N=V" attribute in single quotes        *)
(*   "=T" "#N"  text, a number     "[=T" "[#N" the same as CDATA section    *)
(*   "&=T" "&#N" the same as character references                           *)
(*   "+1" "+0"  a truth value as a digit                                    *)
(*   "~N=V"  an attribute left out because V is what its absence means      *)
(*   "_"  white space between tags   "!T" comment   "?T" instruction        *)
(* Meaning(items) is what the text says, as tokens of ArxmlSchema; Vary(ks, *)
(* toks) writes toks in the ways ks; Meaning(Vary(ks, toks)) = toks for all *)
(* of them is what TLC checks, and reading the text must give the element.  *)
EXTENDS ArxmlSchema

(* elements whose white space is part of the text *)
MixedTags == {"L-1", "L-2", "L-4", "L-5", "DISPLAY-NAME", "UNIT-DISPLAY-NAME"}
Head1(t) == SubSeq(t, 1, 1)
IsStart(t) == Head1(t) = "<"
IsEnd(t) == Head1(t) = "/"
IsAttrTok(t) == Head1(t) \in {"@", "'"}
IsText(t) == Head1(t) \in {"=", "#", "[", "&", "+"}
TagOf(t) == SubSeq(t, 2, Len(t))
(* attributes every element of an AUTOSAR document may carry, of no meaning to the library *)
SumAttr == "@S=c0ffee"
TimeAttr == "@T=2024-02-29T12:00:00+01:00"
KeepAttr == "@xml:space=preserve"
Idle == {SumAttr, TimeAttr, KeepAttr}

-----------------------------------------------------------------------------
(* what a text says *)
Plain(t) == CASE t = "+1" -> "=true" [] t = "+0" -> "=false"
              [] Head1(t) \in {"[", "&"} -> SubSeq(t, 2, Len(t))
              [] Head1(t) \in {"'", "~"} -> "@" \o SubSeq(t, 2, Len(t))
              [] t = "/." -> "/"
              [] OTHER -> t
Counts(t) == ~(Head1(t) \in {"_", "!", "?"}) /\ ~(t \in Idle)
RECURSIVE Say(_, _, _)
Say(said, i, acc) ==
  IF i > Len(said) THEN acc
  ELSE LET t == Plain(said[i])
           joined == IsText(t) /\ acc # <<>> /\ IsText(acc[Len(acc)])
       IN Say(said, i + 1, IF joined THEN [acc EXCEPT ![Len(acc)] = @ \o SubSeq(t, 2, Len(t))] ELSE Append(acc, t))
Meaning(items) == Say(SelectSeq(items, Counts), 1, <<>>)

-----------------------------------------------------------------------------
(* ways to write it *)
Ways == <<"remarks", "split", "space", "cdata", "half", "refs", "marks", "open", "truth", "quote", "default">>
(* loose: per open element, whether white space between its children is of no meaning *)
RECURSIVE AfterAttrs(_, _)
AfterAttrs(toks, i) == IF i > Len(toks) THEN i ELSE IF IsAttrTok(toks[i]) THEN AfterAttrs(toks, i + 1) ELSE i
LooseAt(toks, i, outer) ==
  /\ outer /\ ~(TagOf(toks[i]) \in MixedTags)
  /\ LET j == AfterAttrs(toks, i + 1) IN j <= Len(toks) /\ IsStart(toks[j])
Note(i) == IF i % 3 = 0 THEN "?note x=" \o Str(i) ELSE "! <A>" \o Str(i) \o "</A> "
(* in front of a tag *)
Gap(ks, i, loose) == IF ~loose THEN (IF "split" \in ks THEN <<Note(i)>> ELSE <<>>)
                     ELSE (IF "space" \in ks THEN <<"_">> ELSE <<>>)
                       \o (IF "remarks" \in ks THEN <<Note(i)>> ELSE <<>>)
                       \o (IF "space" \in ks /\ "remarks" \in ks THEN <<"_">> ELSE <<>>)
TextForms(ks, t, i) ==
  LET whole == IF "cdata" \in ks THEN "[" \o t ELSE IF "refs" \in ks THEN "&" \o t ELSE t
      k == Head1(t)
      m == 1 + (Len(t) \div 2)
      one == k \o SubSeq(t, 2, m)
      two == k \o SubSeq(t, m + 1, Len(t))
      second == IF "half" \in ks THEN (IF i % 2 = 0 THEN "[" ELSE "&") \o two
                ELSE IF "cdata" \in ks THEN "[" \o two ELSE IF "refs" \in ks THEN "&" \o two ELSE two
      first == IF "half" \in ks THEN one ELSE IF "cdata" \in ks THEN "[" \o one ELSE IF "refs" \in ks THEN "&" \o one ELSE one
  IN IF "truth" \in ks /\ t \in {"=true", "=false"} THEN <<IF t = "=true" THEN "+1" ELSE "+0">>
     ELSE IF Len(t) > 2 /\ ({"split", "half"} \cap ks) # {}
          THEN <<first>> \o (IF "split" \in ks THEN <<Note(i)>> ELSE <<>>) \o <<second>>
     ELSE <<whole>>
Nothing(ks, i) == IF "open" \in ks THEN (IF "split" \in ks THEN <<Note(i), "/">> ELSE <<"/">>) ELSE <<"/.">>
(* what the absence of an attribute means *)
Assumed == {"@INTERVAL-TYPE=CLOSED"}
AttrForm(ks, t) == IF "default" \in ks /\ t \in Assumed THEN "~" \o SubSeq(t, 2, Len(t))
                   ELSE IF "quote" \in ks THEN "'" \o SubSeq(t, 2, Len(t)) ELSE t
RECURSIVE Walk(_, _, _, _, _)
Walk(ks, toks, i, stack, acc) ==
  IF i > Len(toks) THEN acc
  ELSE LET t == toks[i]
           loose == IF stack = <<>> THEN FALSE ELSE stack[Len(stack)]
           gap == IF stack = <<>> THEN <<>> ELSE Gap(ks, i, loose)
       IN IF IsStart(t)
          THEN LET j == AfterAttrs(toks, i + 1)
                   attrs == [k \in 1..(j - i - 1) |-> AttrForm(ks, toks[i + k])]
                   more == IF "marks" \in ks THEN <<SumAttr>> \o attrs \o <<TimeAttr>>
                                                  \o (IF TagOf(t) \in MixedTags THEN <<KeepAttr>> ELSE <<>>)
                           ELSE attrs
                   empty == j <= Len(toks) /\ IsEnd(toks[j])
               IN IF empty THEN Walk(ks, toks, j + 1, stack, acc \o gap \o <<t>> \o more \o Nothing(ks, i))
                  ELSE Walk(ks, toks, j, Append(stack, LooseAt(toks, i, stack = <<>> \/ loose)), acc \o gap \o <<t>> \o more)
          ELSE IF IsEnd(t) THEN Walk(ks, toks, i + 1, SubSeq(stack, 1, Len(stack) - 1), acc \o gap \o <<t>>)
          ELSE Walk(ks, toks, i + 1, stack, acc \o gap \o TextForms(ks, t, i))
Vary(ks, toks) == Walk(ks, toks, 1, <<>>, <<>>)

-----------------------------------------------------------------------------
(* the document around it *)
Document(root, toks) ==
  <<"<AUTOSAR", "<AR-PACKAGES">>
  \o (IF root = "Package" THEN toks
      ELSE <<"<AR-PACKAGE", "<SHORT-NAME", "=Elements", "/", "<ELEMENTS">> \o toks \o <<"/", "/">>)
  \o <<"/", "/">>
Encodings == <<"utf-8", "utf-8-sig", "utf-16", "iso-8859-1", "us-ascii", "", "UTF-8">>
Form(i) == [enc |-> Encodings[(i % Len(Encodings)) + 1],          \* encoding, and the declaration of it ("": no declaration)
            via |-> IF i % 2 = 0 THEN "file" ELSE "str",          \* read from a file or from a string
            ns |-> IF i % 3 = 0 THEN "ar" ELSE "",                \* namespace prefix
            eol |-> IF i % 5 = 0 THEN "crlf" ELSE "lf",
            alone |-> Bool(i % 4 = 1),                            \* standalone declaration
            deep |-> Bool(i % 2 = 1)]                             \* remarks outside the root element
(* the ways tried on the k-th element: all that go together, and each by itself in turn *)
All(k) == IF k % 2 = 0 THEN {"remarks", "split", "space", "half", "marks", "open", "truth", "quote", "default"}
          ELSE {"remarks", "split", "cdata", "marks", "truth", "default"}
WaysFor(k, all) == IF all THEN <<All(0), All(1)>> \o [w \in 1..Len(Ways) |-> {Ways[w]}] \o <<{"space", "refs"}, {"space", "cdata"}, {}>>
                   ELSE <<All(k), {Ways[(k % Len(Ways)) + 1]}>>
=============================================================================
