----------------------------- MODULE TypeModel -----------------------------
(* The implementation model of data types (C23), the types generated from it *)
(* and their order (C24), and their C declarations (C25).                    *)
(*                                                                           *)
(* A catalogue c.types holds what the workspace has: [r: reference, n: name, *)
(* k: base, VALUE, TYPE_REFERENCE, ARRAY, STRUCTURE, DATA_REFERENCE, another  *)
(* category, or unit (no type at all); to: what it refers to; tcat: target   *)
(* category of a pointer; native: declaration of a base type, as a sequence  *)
(* of words; sym: symbol; emit: type emitter; els: elements].  r = "" is an  *)
(* element outside of any package.  An element is [n, k, to, size, pol,      *)
(* hand, sem].  "" stands for what is absent.                                *)
EXTENDS Kit

Has(c, r) == r # "" /\ \E i \in 1..Len(c.types) : c.types[i].r = r
At(c, r) == c.types[CHOOSE i \in 1..Len(c.types) : c.types[i].r = r]
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
IsBase(c, r) == Has(c, r) /\ At(c, r).k = "base"
Referred(t) ==
  CASE t.k \in {"VALUE", "TYPE_REFERENCE", "DATA_REFERENCE"} -> <<t.to>>
    [] t.k = "ARRAY" /\ t.els # <<>> -> <<Last(t.els).to>>
    [] t.k = "STRUCTURE" -> Map(t.els, LAMBDA e : e.to)
    [] OTHER -> <<>>

(* can the type with this reference be created?  path: the references on the way to it *)
RECURSIVE Ok(_, _, _)
Ok(c, r, path) ==
  LET t == At(c, r)
      Part(k, to) == CASE k = "VALUE" -> IsBase(c, to) [] k = "TYPE_REFERENCE" -> Ok(c, to, path \cup {r}) [] OTHER -> FALSE
  IN Has(c, r) /\ r \notin path /\
     CASE t.k = "base" -> TRUE
       [] t.k \in {"VALUE", "TYPE_REFERENCE"} -> Part(t.k, t.to)
       [] t.k = "DATA_REFERENCE" -> Part(t.tcat, t.to)
       [] t.k = "ARRAY" -> t.els # <<>> /\ (\A i \in 1..Len(t.els) : t.els[i].size # "") /\ Part(Last(t.els).k, Last(t.els).to)
       [] t.k = "STRUCTURE" -> \A i \in 1..Len(t.els) : Part(t.els[i].k, t.els[i].to)
       [] OTHER -> FALSE
RECURSIVE Closure(_, _, _)
Closure(c, todo, done) == IF todo \subseteq done THEN done
                          ELSE LET r == CHOOSE x \in todo \ done : TRUE
                               IN Closure(c, todo \cup Elems(Referred(At(c, r))), done \cup {r})

Opt(name, v) == IF v = "" THEN "" ELSE " " \o name \o "=" \o v
ElemShape(e) == e.n \o " " \o e.k \o ">" \o e.to \o Opt("size", e.size) \o Opt("pol", e.pol) \o Opt("hand", e.hand) \o Opt("sem", e.sem)
(* leading elements of an array are dimensions only, the elements of a record have no size *)
Dimension(e) == [e EXCEPT !.k = "dim", !.to = ""]
Member(e) == [e EXCEPT !.size = "", !.pol = "", !.hand = "", !.sem = ""]
Shape(t) ==
  LET head == t.r \o " " \o t.k \o " " \o t.n
      own == " " \o (IF t.sym = "" THEN t.n ELSE t.sym) \o Opt("emit", t.emit)
  IN CASE t.k = "base" -> head \o Opt("native", Join(t.native, " "))
       [] t.k \in {"VALUE", "TYPE_REFERENCE", "DATA_REFERENCE"} -> head \o own \o " >" \o t.to
       [] t.k = "ARRAY" -> head \o own \o " [" \o Join(Map(Map(Front(t.els), Dimension) \o <<Last(t.els)>>, ElemShape), "; ") \o "]"
       [] t.k = "STRUCTURE" -> head \o own \o " [" \o Join(Map(Map(t.els, Member), ElemShape), "; ") \o "]"
       [] OTHER -> head

-----------------------------------------------------------------------------
(* requests for types, in any order                                           *)
TInit1(c) == [c |-> c, got |-> {}, src |-> {}]
Out(st, res) == [st |-> st, res |-> res]
Asked(st, r, src) == IF Ok(st.c, r, {}) THEN Out([st EXCEPT !.got = @ \cup {r}, !.src = IF src THEN @ \cup {r} ELSE @], "ok") ELSE Out(st, "err")
MStep(st, op) == IF op.how = "index" THEN Asked(st, st.c.types[op.i].r, op.src) ELSE Asked(st, op.r, op.src)
MProj(st) == LET all == Closure(st.c, st.got, {}) IN Map(Keep(st.c.types, LAMBDA t : t.r \in all), Shape)

-----------------------------------------------------------------------------
(* what is generated for the requested types                                  *)
Name(t) == IF t.k # "base" /\ t.sym # "" THEN t.sym ELSE t.n
NameAt(c, r) == Name(At(c, r))
(* the types the definition of t names: arrays and records spell base types out *)
Named(t) ==
  CASE t.k = "ARRAY" -> IF Last(t.els).k = "TYPE_REFERENCE" THEN {Last(t.els).to} ELSE {}
    [] t.k = "STRUCTURE" -> {t.els[i].to : i \in {j \in 1..Len(t.els) : t.els[j].k = "TYPE_REFERENCE"}}
    [] OTHER -> Elems(Referred(t))
RECURSIVE Reached(_, _, _)
Reached(c, todo, done) == IF todo \subseteq done THEN done
                          ELSE LET r == CHOOSE x \in todo \ done : TRUE IN Reached(c, todo \cup Named(At(c, r)), done \cup {r})
Rte(e) == e \in {"", "RTE", "rte", "Rte"}
Emitted(c, src) == {r \in Reached(c, src, {}) : LET t == At(c, r) IN IF t.k = "base" THEN t.native # <<>> ELSE Rte(t.emit)}

Target(c, e) == CASE e.k = "VALUE" -> LET b == At(c, e.to) IN IF b.native = <<>> THEN <<b.n>> ELSE b.native
                  [] OTHER -> <<NameAt(c, e.to)>>
Typedef(words) == "typedef " \o Join(words, " ")
Decls(c, t) ==
  CASE t.k = "base" -> <<Typedef(t.native \o <<t.n>>)>>
    [] t.k \in {"VALUE", "TYPE_REFERENCE"} -> <<Typedef(<<NameAt(c, t.to), Name(t)>>)>>
    [] t.k = "DATA_REFERENCE" -> <<Typedef(<<NameAt(c, t.to), "*", Name(t)>>)>>
    [] t.k = "ARRAY" -> <<Typedef(Target(c, Last(t.els)) \o <<Name(t)>> \o Flat(Map(t.els, LAMBDA e : <<"[", e.size, "]">>)))>>
    [] OTHER -> << Join(<<"struct", "Rte_struct_" \o Name(t), "{">> \o Flat(Map(t.els, LAMBDA e : Target(c, e) \o <<e.n, ";">>)) \o <<"}">>, " "),
                   Typedef(<<"struct", "Rte_struct_" \o Name(t), Name(t)>>) >>

Sources(rec) == {r \in Elems(rec.src) : Ok(rec.c, r, {})}
(* verdicts on a recorded generation: rec.src: the requested references, rec.order: the references in the order generated, rec.names: the *)
(* names the text defines, rec.same: is the text the same for other orders of requests?, rec.decls: the declarations in the text,         *)
(* rec.inc, rec.cxx: those a C and a C++ compiler see in the header, rec.accepted: do both accept it, included twice?                     *)
Before(s, a, b) == \A j \in 1..Len(s) : s[j] = b => \E i \in 1..(j-1) : s[i] = a
OrderVerdict(rec) ==
  LET want == Emitted(rec.c, Sources(rec))
  IN CASE ~Distinct(rec.order) -> "defined more than once"
       [] want \ Elems(rec.order) # {} -> "missing"
       [] Elems(rec.order) \ want # {} -> "not to be generated"
       [] \E r \in want : \E d \in Named(At(rec.c, r)) \cap want : ~Before(rec.order, d, r) -> "used before its definition"
       [] rec.names # Map(rec.order, LAMBDA r : NameAt(rec.c, r)) -> "text defines other names"
       [] ~rec.same -> "depends on the order of requests"
       [] OTHER -> "ok"
TextVerdict(rec) ==
  LET known == \A i \in 1..Len(rec.order) : Has(rec.c, rec.order[i])
      want == IF known THEN Flat(Map(rec.order, LAMBDA r : Decls(rec.c, At(rec.c, r)))) ELSE <<>>
  IN CASE ~known -> "a type the document does not hold is generated"
       [] rec.decls # want -> "other declarations"
       [] rec.inc # want -> "other declarations in C"
       [] rec.cxx # want -> "other declarations in C++"
       [] ~rec.accepted -> "not accepted by the compilers"
       [] OTHER -> "ok"
=============================================================================
