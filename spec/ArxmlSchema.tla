----------------------------- MODULE ArxmlSchema -----------------------------
(* Elements as trees, their ARXML, and the elements that are worth trying.  *)
(*                                                                          *)
(* An element is a node [c, x, d, f]: its class c and, for each field of    *)
(* ClassTab[c] in order, the sequence f[i] of values it holds (empty when   *)
(* the attribute is unset).  Simple values are nodes whose class says which *)
(* kind they are: =text =num =bool =enum =ref =limit =ltype, x the text and *)
(* d the destination of a reference.                                        *)
(* Ser(n, tag, ver) is the XML of n as a sequence of tokens:                *)
(*   "<TAG" start, "@NAME=VALUE" attribute, "=TEXT" text, "#NUMBER" number  *)
(*   (compared by value), "/" end.                                          *)
EXTENDS ArxmlTable, SequencesExt

Atom(k, x, d) == [c |-> k, x |-> x, d |-> d, f |-> <<>>]
Fields(c) == ClassTab[c]
Empty(c) == [c |-> c, x |-> "", d |-> "", f |-> [i \in 1..Len(Fields(c)) |-> <<>>]]
IsReq(fl) == fl.m \in {"r", "@r"}
IsAttr(fl) == fl.m \in {"@", "@r"}
IsList(fl) == fl.m = "*"
IdxOf(c, a) == First(Fields(c), LAMBDA fl : fl.a = a)
ValOf(n, a) == n.f[IdxOf(n.c, a)]

-----------------------------------------------------------------------------
(* serialisation *)
AltTag(g, c) == LET s == AltTab[g] IN s[First(s, LAMBDA r : r.c = c)].t
DestText(d) == LET P(i) == IF SubSeq(d, i, i) = "_" THEN "-" ELSE SubSeq(d, i, i)
                   R[i \in 0..Len(d)] == IF i = 0 THEN "" ELSE R[i-1] \o P(i)
               IN IF d = "E2E_PROFILE_COMPATIBILITY_PROPS" THEN "E-2-E-PROFILE-COMPATIBILITY-PROPS" ELSE R[Len(d)]
AtomText(fl, v) == CASE v.c = "=enum" -> EnumText(fl.x, v.x)
                     [] v.c = "=bool" -> (IF v.x = "1" THEN "true" ELSE "false")
                     [] OTHER -> v.x
AtomTok(fl, v) == IF v.c \in {"=num", "=limit"} THEN "#" \o v.x ELSE "=" \o AtomText(fl, v)
Wrap(w, toks) == IF w = "" THEN toks ELSE <<"<" \o w>> \o toks \o <<"/">>
(* exclusive areas of runnables have another form before schema version 50 *)
Old(ver, fl) == ver < 50 /\ fl.x = "ExclusiveAreaRefConditional"
OldTag(fl) == IF fl.a = "runs_insides" THEN "RUNS-INSIDE-EXCLUSIVE-AREA-REF" ELSE "CAN-ENTER-EXCLUSIVE-AREA-REF"
Wrapper(fl, ver) == IF Old(ver, fl) THEN OldTag(fl) \o "S" ELSE fl.w
RECURSIVE Ser(_, _, _)
SerRef(v, t) == <<"<" \o t, "@DEST=" \o DestText(v.d), "=" \o v.x, "/">>
SerVal(n, fl, v, ver) ==
  LET t == IF fl.k = "any" THEN AltTag(fl.x, v.c) ELSE fl.t IN
  IF v.c = "=ref" THEN SerRef(v, t)
  ELSE IF v.c = "=ltype" THEN <<>>
  ELSE IF v.c = "=limit" THEN
       LET ty == ValOf(n, fl.x)
           tx == IF ty = <<>> THEN "CLOSED" ELSE EnumText("IntervalType", ty[1].x)
       IN <<"<" \o t, "@INTERVAL-TYPE=" \o tx, "#" \o v.x, "/">>
  ELSE IF SubSeq(v.c, 1, 1) = "=" THEN
       (IF t = "" THEN <<AtomTok(fl, v)>> ELSE <<"<" \o t, AtomTok(fl, v), "/">>)
  ELSE IF Old(ver, fl) THEN Flat([j \in 1..Len(v.f[1]) |-> SerRef(v.f[1][j], OldTag(fl))])
  ELSE Ser(v, t, ver)
(* an exclusive area entry that names no area has no such form *)
RECURSIVE Writable(_, _)
Writable(n, ver) == ver >= 50 \/ (/\ ~(n.c = "ExclusiveAreaRefConditional" /\ n.f[1] = <<>>)
                                 /\ \A i \in 1..Len(n.f) : \A j \in 1..Len(n.f[i]) : Writable(n.f[i][j], ver))
(* an enumeration value the schema version does not define has no text in it *)
RECURSIVE EnumOk(_, _)
EnumOk(n, ver) == \A i \in 1..Len(n.f) : \A j \in 1..Len(n.f[i]) :
                    LET v == n.f[i][j] IN
                    IF v.c = "=enum" THEN LET t == EnumTab[Fields(n.c)[i].x] IN t[First(t, LAMBDA r : r.n = v.x)].lo <= ver
                    ELSE EnumOk(v, ver)
SerField(n, i, ver) ==
  LET fl == Fields(n.c)[i] IN
  IF n.f[i] = <<>> \/ IsAttr(fl) THEN <<>>
  ELSE Wrap(Wrapper(fl, ver), Flat([j \in 1..Len(n.f[i]) |-> SerVal(n, fl, n.f[i][j], ver)]))
SerAttrs(n) ==
  LET S(i) == LET fl == Fields(n.c)[i] IN
              IF IsAttr(fl) /\ n.f[i] # <<>> THEN <<"@" \o fl.t \o "=" \o AtomText(fl, n.f[i][1])>> ELSE <<>>
  IN Flat([i \in 1..Len(n.f) |-> S(i)])
Ser(n, tag, ver) == <<"<" \o tag>> \o SerAttrs(n) \o Flat([i \in 1..Len(n.f) |-> SerField(n, i, ver)]) \o <<"/">>

-----------------------------------------------------------------------------
(* which elements to try *)
RootClasses == {AltTab.Root[i].c : i \in 1..Len(AltTab.Root)} \cup {"Package"}
Unheld == {"ModeRequestTypeMap"}
RootTag(c) == IF c = "Package" THEN "AR-PACKAGE" ELSE AltTag("Root", c)

Next1(b, i) == (b * 31 + i) % 20011
CONSTANT Mark          \* "" or what every text carries: the harness replaces it by markup characters and the like
Word(a, b) == SubSeq("qdxhtbzkmv", (b % 10) + 1, (b % 10) + 1) \o a \o "-" \o Str(b) \o Mark   \* in no particular order
Format(b) == "%" \o (IF b % 3 = 0 THEN "-" ELSE "") \o Str(b % 31) \o (IF b % 2 = 0 THEN "." \o Str(b % 7) \o "f" ELSE "d")
IsClass(c) == SubSeq(c, 1, 1) \notin {"=", "@"}
RECURSIVE Small(_, _)
OneValue(fl, b) ==
  CASE fl.k = "text" -> Atom("=text", IF fl.a = "uuid" THEN "0e4f37a2-" \o Str(b) \o Mark ELSE
                                      IF fl.a = "name" THEN "N_" \o Str(b) \o Mark ELSE
                                      IF fl.a = "display_format" THEN Format(b) ELSE Word(fl.a, b), "")
    [] fl.k \in {"int", "num"} -> Atom("=num", IF b % 9 = 4 THEN "0" ELSE Str(b + 2), "")
    [] fl.k = "limit" -> Atom("=limit", Str(b + 2), "")
    [] fl.k = "ltype" -> Atom("=ltype", IF b % 2 = 0 THEN "OPEN" ELSE "CLOSED", "")
    [] fl.k = "bool" -> Atom("=bool", Str(b % 2), "")
    [] fl.k = "enum" -> LET t == EnumTab[fl.x] IN Atom("=enum", t[(b % Len(t)) + 1].n, "")
    [] fl.k = "ref" -> LET t == RefTab[fl.x] IN Atom("=ref", "/" \o Word("Ref", b) \o "/" \o fl.a \o Str(b), t[(b % Len(t)) + 1])
    [] fl.k = "sub" -> Small(fl.x, b)
    [] OTHER -> Atom("?", "", "")
AltValue(alt, fl, b) == IF alt.c = "=text" THEN Atom("=text", Word(fl.a, b), "")
                        ELSE IF alt.c = "=num" THEN Atom("=num", Str(b + 2), "")
                        ELSE Small(alt.c, b)
SmallOf(fl, b) == IF fl.k = "any" THEN LET g == AltTab[fl.x] IN <<AltValue(g[(b % Len(g)) + 1], fl, b)>>
                  ELSE <<OneValue(fl, b)>>
(* the smallest telling element: what is required, the text of a language part, else the first attribute *)
Core(c) == LET fs == Fields(c)
               req == {i \in 1..Len(fs) : IsReq(fs[i]) \/ fs[i].a = "parts"}
           IN IF req # {} THEN req ELSE IF Len(fs) = 0 THEN {} ELSE {1}
Small(c, b) == [Empty(c) EXCEPT !.f = [i \in 1..Len(Fields(c)) |->
                  IF i \in Core(c) THEN (IF Fields(c)[i].a = "parts" THEN <<Atom("=text", Word(c, b), "")>>
                                         ELSE SmallOf(Fields(c)[i], Next1(b, i))) ELSE <<>>]]
Bare(c, b) == [Empty(c) EXCEPT !.f = [i \in 1..Len(Fields(c)) |->
                  IF IsReq(Fields(c)[i]) THEN SmallOf(Fields(c)[i], Next1(b, i)) ELSE <<>>]]

(* every attribute set, nested to depth d *)
RECURSIVE Full(_, _, _)
FullVal(fl, b, d) ==
  IF fl.k = "sub" /\ d > 0 THEN Full(fl.x, b, d - 1)
  ELSE IF fl.k = "any" /\ d > 0 THEN LET g == AltTab[fl.x]
                                         alt == g[(b % Len(g)) + 1]
                                     IN IF IsClass(alt.c) THEN Full(alt.c, b, d - 1) ELSE AltValue(alt, fl, b)
  ELSE SmallOf(fl, b)[1]
RawText(v, fl) == v.c = "=text" /\ fl.k = "any" /\ AltTag(fl.x, "=text") = ""
FullVals(fl, b, d) ==
  LET v == FullVal(fl, Next1(b, 1), d)
      w == FullVal(fl, Next1(b, 2), d)
  IN IF fl.m \in {"*", "2"} /\ ~(\E u \in {v, w} : RawText(u, fl)) THEN <<v, w>> ELSE <<v>>
Full(c, b, d) == [Empty(c) EXCEPT !.f = [i \in 1..Len(Fields(c)) |-> FullVals(Fields(c)[i], Next1(b, i), d)]]

(* the values tried for one attribute *)
Lists(mk(_, _), b) == << <<mk(b, 1)>>, <<mk(b, 1), mk(b, 2)>>, <<mk(b, 3), mk(b, 1), mk(b, 2)>> >>
Values(fl, b, d) ==
  CASE fl.k = "text" -> << <<OneValue(fl, b)>> >> \o
         (IF fl.m = "*" THEN << <<OneValue(fl, b), OneValue(fl, b + 1)>>, <<OneValue(fl, b + 1), OneValue(fl, b), OneValue(fl, b + 2)>> >>
          ELSE <<>>)
    [] fl.k \in {"int", "num", "limit"} ->
         LET A(x) == Atom(IF fl.k = "limit" THEN "=limit" ELSE "=num", x, "")
             xs == <<"0", Str(b + 2)>> \o (IF fl.k = "int" THEN <<>>
                                           ELSE <<"-" \o Str(b + 3), "0.0", Str(b + 1) \o ".5", "-" \o Str(b) \o ".125">>)
         IN [i \in 1..Len(xs) |-> <<A(xs[i])>>] \o
            (IF fl.m = "*" THEN << <<A("0"), A(Str(b))>>, <<A(Str(b + 2) \o ".5"), A("0"), A("-" \o Str(b))>> >> ELSE <<>>)
    [] fl.k = "ltype" -> << <<Atom("=ltype", "OPEN", "")>>, <<Atom("=ltype", "CLOSED", "")>> >>
    [] fl.k = "bool" -> << <<Atom("=bool", "0", "")>>, <<Atom("=bool", "1", "")>> >>
    [] fl.k = "enum" -> [i \in 1..Len(EnumTab[fl.x]) |-> <<Atom("=enum", EnumTab[fl.x][i].n, "")>>]
    [] fl.k = "ref" ->
         LET R(i) == Atom("=ref", "/" \o Word("Ref", b + i) \o "/" \o fl.a \o Str(b + i), RefTab[fl.x][((i - 1) % Len(RefTab[fl.x])) + 1])
         IN [i \in 1..Len(RefTab[fl.x]) |-> <<R(i)>>] \o
            (IF fl.m = "*" THEN << <<R(1), R(2)>>, <<R(3), R(1), R(2)>> >> ELSE <<>>)
    [] fl.k = "sub" ->
         LET S(j) == Small(fl.x, Next1(b, j))
             bare == Bare(fl.x, b)
             F(j) == Full(fl.x, Next1(b, j), d)
         IN << <<S(1)>>, <<F(1)>> >> \o (IF bare # Small(fl.x, b) THEN << <<bare>> >> ELSE <<>>) \o
            (IF fl.m = "*" THEN << <<S(1), S(2)>>, <<F(1), S(2), F(3)>> >>
             ELSE IF fl.m = "2" THEN << <<S(1), S(2)>>, <<F(2), F(1)>> >> ELSE <<>>)
    [] OTHER ->
         LET g == AltTab[fl.x]
             V(j) == AltValue(g[j], fl, Next1(b, j))
             F(j) == IF IsClass(g[j].c) THEN Full(g[j].c, Next1(b, j + 50), d) ELSE V(j)
             one == [j \in 1..Len(g) |-> <<V(j)>>]
             deep == SelectSeq([j \in 1..Len(g) |-> <<F(j)>>], LAMBDA s : IsClass(s[1].c))
             bares == SelectSeq([j \in 1..Len(g) |-> IF IsClass(g[j].c) THEN <<Bare(g[j].c, b + j)>> ELSE <<V(j)>>],
                                LAMBDA s : IsClass(s[1].c))
             all == [j \in 1..Len(g) |-> V(j)]
             rev == [j \in 1..Len(g) |-> F(Len(g) + 1 - j)]
             Twice(j) == <<V(j), AltValue(g[j], fl, Next1(b, j + 100)), AltValue(g[j], fl, Next1(b, j + 200))>>
             txt == First(g, LAMBDA r : r.c = "=text" /\ r.t = "")
             Mix(j) == <<V(txt), V(j), AltValue(g[txt], fl, Next1(b, 77 + j)), AltValue(g[j], fl, Next1(b, 177 + j))>>
         IN one \o deep \o bares \o
            (IF fl.m = "*" THEN <<all, rev>> \o
               [j \in 1..Len(g) |-> IF j = txt THEN all ELSE Twice(j)] \o
               (IF txt = 0 THEN <<>> ELSE [j \in 1..Len(g) |-> IF j = txt THEN all ELSE Mix(j)])
             ELSE <<>>)

(* attributes that only make sense together with another one *)
Needs(fl) == IF fl.k = "ltype" THEN fl.x ELSE ""
SetF(n, i, v) == [n EXCEPT !.f[i] = v]
Close(n) == LET fs == Fields(n.c)
                D(i) == IF n.f[i] # <<>> THEN n.f[i]
                        ELSE IF \E j \in 1..Len(fs) : Needs(fs[j]) = fs[i].a /\ n.f[j] # <<>>
                             THEN <<OneValue(fs[i], i)>> ELSE <<>>
            IN [n EXCEPT !.f = [i \in 1..Len(fs) |-> D(i)]]

Singles(c, b, d) ==
  LET fs == Fields(c)
      One(i) == LET vs == Values(fs[i], Next1(b, i), d)
                IN [j \in 1..Len(vs) |-> Close(SetF(Bare(c, b), i, vs[j]))]
  IN Flat([i \in 1..Len(fs) |-> One(i)])
Pairs(c, b) ==
  LET fs == Fields(c)
      One(i) == [k \in 1..(Len(fs) - i) |->
                   Close(SetF(SetF(Bare(c, b), i, SmallOf(fs[i], Next1(b, i))), i + k, SmallOf(fs[i + k], Next1(b, i + k))))]
  IN Flat([i \in 1..Len(fs) |-> One(i)])
AllButOne(c, b, d) ==
  LET fs == Fields(c)
      full == Full(c, b, d)
      idx == SelectSeq([i \in 1..Len(fs) |-> i], LAMBDA i : ~IsReq(fs[i]))
  IN [k \in 1..Len(idx) |-> Close(SetF(full, idx[k], <<>>))]
Rich(c, b, d) == [k \in 1..8 |-> Full(c, b + k, d)]
Cases(c, b, d, pairs) == <<Bare(c, b), Small(c, b)>> \o Singles(c, b, d) \o Rich(c, b + 10, d + 1) \o AllButOne(c, b + 20, d)
                         \o (IF pairs THEN Pairs(c, b + 30) ELSE <<>>)

-----------------------------------------------------------------------------
(* how to reach an element of each class from a package element *)
KidsOf(fl) == IF fl.k = "sub" THEN {fl.x} ELSE IF fl.k = "any" THEN {AltTab[fl.x][j].c : j \in 1..Len(AltTab[fl.x])} ELSE {}
(* the classes below each class, with the attribute that holds them; packages are no hosts *)
Below == TLCEval([p \in DOMAIN ClassTab \ {"Package"} |->
           TLCEval(UNION {KidsOf(Fields(p)[i]) : i \in 1..Len(Fields(p))})])
RECURSIVE Grow(_)
Grow(h) ==
  LET have == DOMAIN h
      hosts == have \ {"Package"}
      more == TLCEval(UNION {Below[p] : p \in hosts} \ (have \cup {"=text", "=num"}))
      pick(c) == LET p == CHOOSE p \in hosts : c \in Below[p]
                 IN <<p, First(Fields(p), LAMBDA fl : c \in KidsOf(fl))>>
  IN IF more = {} THEN h ELSE Grow(TLCEval([c \in have \cup more |-> IF c \in have THEN h[c] ELSE pick(c)]))
Hosts == TLCEval(Grow([c \in RootClasses |-> <<>>]))
RECURSIVE Embed(_, _, _)
Embed(n, b, hosts) == IF hosts[n.c] = <<>> THEN n
                      ELSE LET p == hosts[n.c][1]
                               i == hosts[n.c][2]
                           IN Embed(Close(SetF(Bare(p, b), i, <<n>>)), b + 1, hosts)
Named(n, name) == SetF(n, IdxOf(n.c, "name"), <<Atom("=text", name, "")>>)
=============================================================================
