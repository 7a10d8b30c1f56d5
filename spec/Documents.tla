------------------------------ MODULE Documents ------------------------------
(* A workspace and the ARXML files it writes: configured documents, document *)
(* mappings, and the writing itself, which only reads the package tree       *)
(* (C11, C12).                                                               *)
(*                                                                           *)
(* State: nodes (packages and elements, numbered in order of creation), the  *)
(* configured documents and mappings in order, the directory written to, and *)
(* the files with what they hold.  A refused write leaves no files to judge. *)
EXTENDS Kit

(* names in the order in which files list them (by character code) *)
NameOrder == <<"A", "B", "C", "Impl", "Main", "R", "S", "S_Impl", "S_ImplX", "S_T", "S_T_Impl", "S_impl", "T", "T_Impl", "T_T", "U", "a", "s", "s_Impl", "sub/Main", "sub/S", "u", "v", "x">>
Rank(n) == First(NameOrder, LAMBDA x : x = n)
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>>
             ELSE LET m == CHOOSE i \in 1..Len(s) : \A j \in 1..Len(s) : Rank(s[i].n) <= Rank(s[j].n)
                  IN <<s[m]>> \o Sorted(SubSeq(s, 1, m - 1) \o SubSeq(s, m + 1, Len(s)))
(* element classes and the classes they specialise *)
Tag == [ApplicationSoftwareComponentType |-> "APPLICATION-SW-COMPONENT-TYPE", CompositionSwComponentType |-> "COMPOSITION-SW-COMPONENT-TYPE",
        SwcImplementation |-> "SWC-IMPLEMENTATION", Unit |-> "UNIT", SenderReceiverInterface |-> "SENDER-RECEIVER-INTERFACE"]
Classes == DOMAIN Tag
IsA(k, t) == \/ k = t
             \/ t = "ARElement" /\ k \in Classes
             \/ t = "SwComponentType" /\ k \in {"ApplicationSoftwareComponentType", "CompositionSwComponentType"}
             \/ t = "AtomicSoftwareComponentType" /\ k = "ApplicationSoftwareComponentType"
             \/ t = "PortInterface" /\ k = "SenderReceiverInterface"

Node(k, n, up) == [k |-> k, n |-> n, up |-> up]
DocInit(c) == [nodes |-> <<>>, docs |-> <<>>, maps |-> <<>>, dir |-> c, files |-> <<>>]
Ids(st) == [i \in 1..Len(st.nodes) |-> i]
PacksIn(st, i) == Keep(Ids(st), LAMBDA j : st.nodes[j].up = i /\ st.nodes[j].k = "pkg")
ElemsIn(st, i) == Keep(Ids(st), LAMBDA j : st.nodes[j].up = i /\ st.nodes[j].k # "pkg")
Child(st, i, n) == First(st.nodes, LAMBDA x : x.up = i /\ x.n = n)
RECURSIVE Find(_, _, _)
Find(st, i, path) == IF path = <<>> THEN i
                     ELSE LET j == Child(st, i, path[1]) IN IF j = 0 THEN 0 ELSE Find(st, j, Tail(path))
RECURSIVE PathOf(_, _)
PathOf(st, i) == IF i = 0 THEN <<>> ELSE PathOf(st, st.nodes[i].up) \o <<st.nodes[i].n>>
RECURSIVE Make(_, _, _)
Make(st, i, path) ==
  IF path = <<>> THEN [st |-> st, id |-> i]
  ELSE LET j == Child(st, i, path[1])
       IN IF j = 0 THEN LET s1 == [st EXCEPT !.nodes = Append(@, Node("pkg", path[1], i))] IN Make(s1, Len(s1.nodes), Tail(path))
          ELSE IF st.nodes[j].k = "pkg" THEN Make(st, j, Tail(path)) ELSE [st |-> st, id |-> 0]

(* what a file holds, as a line *)
ElemText(st, j) == Tag[st.nodes[j].k] \o " " \o st.nodes[j].n
RECURSIVE PackText(_, _)
PackText(st, i) == st.nodes[i].n \o "(" \o Join(Map(ElemsIn(st, i), LAMBDA j : ElemText(st, j))
                                                \o Map(PacksIn(st, i), LAMBDA j : PackText(st, j)), ",") \o ")"
RECURSIVE Nested(_, _)
Nested(path, inner) == IF path = <<>> THEN inner ELSE path[1] \o "(" \o Nested(Tail(path), inner) \o ")"
Body(ver, texts) == Str(ver) \o ":" \o Join(texts, ",")
File(st, name, body) == [d |-> st.dir, n |-> name, b |-> body]
PutFile(files, f) == LET i == First(files, LAMBDA g : g.d = f.d /\ g.n = f.n)
                     IN IF i = 0 THEN Append(files, f) ELSE [files EXCEPT ![i] = f]

Bad == [ok |-> FALSE, files |-> <<>>]
WriteDoc(st, files, doc, ver) ==
  LET ids == Map(doc.refs, LAMBDA p : Find(st, 0, p))
      good == \A i \in 1..Len(ids) : ids[i] # 0 /\ st.nodes[ids[i]].k = "pkg"
  IN IF ~good THEN Bad
     ELSE IF ~Distinct(Map(ids, LAMBDA i : st.nodes[i].n)) THEN Bad     \* a document has one package of a name
     ELSE [ok |-> TRUE, files |-> PutFile(files, File(st, doc.file, Body(ver, Map(ids, LAMBDA i : PackText(st, i)))))]
(* the elements that go with an element: named like it with one of the suffixes *)
Companions(st, p, j, sfx) ==
  Keep(ElemsIn(st, p), LAMBDA e : \E s \in Elems(sfx) : s # "" /\ st.nodes[e].n = st.nodes[j].n \o s)
MappedFile(st, m, p, j, ver) ==
  LET held == Sorted(Map(<<j>> \o Companions(st, p, j, m.sfx), LAMBDA e : [n |-> st.nodes[e].n, t |-> ElemText(st, e)]))
  IN File(st, st.nodes[j].n, Body(ver, <<Nested(PathOf(st, p), Join(Map(held, LAMBDA h : h.t), ","))>>))
RECURSIVE PutAll(_, _)
PutAll(files, more) == IF more = <<>> THEN files ELSE PutAll(PutFile(files, more[1]), Tail(more))
WriteMap(st, files, m, ver) ==
  LET p == Find(st, 0, m.ref) IN
  IF p = 0 THEN [ok |-> TRUE, files |-> files]
  ELSE IF st.nodes[p].k # "pkg" THEN Bad
  ELSE LET chosen == Keep(ElemsIn(st, p), LAMBDA j : \E t \in Elems(m.types) : IsA(st.nodes[j].k, t))
       IN [ok |-> TRUE, files |-> PutAll(files, Map(chosen, LAMBDA j : MappedFile(st, m, p, j, ver)))]
RECURSIVE WriteDocs(_, _, _, _), WriteMaps(_, _, _, _)
WriteDocs(st, files, docs, ver) ==
  IF docs = <<>> THEN [ok |-> TRUE, files |-> files]
  ELSE LET r == WriteDoc(st, files, docs[1], ver) IN IF r.ok THEN WriteDocs(st, r.files, Tail(docs), ver) ELSE Bad
WriteMaps(st, files, maps, ver) ==
  IF maps = <<>> THEN [ok |-> TRUE, files |-> files]
  ELSE LET r == WriteMap(st, files, maps[1], ver) IN IF r.ok THEN WriteMaps(st, r.files, Tail(maps), ver) ELSE Bad

Out(st, res) == [st |-> st, res |-> res]
Step(st, op) ==
  CASE op.op = "make" -> LET r == Make(st, 0, op.path) IN Out(r.st, IF r.id = 0 THEN "err" ELSE "id:" \o Str(r.id))
    [] op.op = "elem" ->
         LET p == Find(st, 0, op.path) IN
         IF p = 0 \/ Child(st, p, op.n) # 0 THEN Out(st, "err")
         ELSE Out([st EXCEPT !.nodes = Append(@, Node(op.k, op.n, p))], "ok")
    [] op.op = "doc" -> Out([st EXCEPT !.docs = Append(@, [file |-> op.file, refs |-> op.refs])], "ok")
    [] op.op = "map" -> Out([st EXCEPT !.maps = Append(@, [ref |-> op.ref, types |-> op.types, sfx |-> op.sfx])], "ok")
    [] op.op = "dir" -> Out([st EXCEPT !.dir = op.d], "ok")
    [] OTHER ->   \* write
         LET r1 == WriteDocs(st, st.files, st.docs, op.ver)
             r2 == IF r1.ok THEN WriteMaps(st, r1.files, st.maps, op.ver) ELSE Bad
         IN IF r2.ok THEN Out([st EXCEPT !.files = r2.files], "ok") ELSE Out([st EXCEPT !.files = <<>>], "err")

(* every package and element with its path, what that path finds and its owner; every file *)
NodeLine(st, i) == Str(i) \o "|/" \o Join(PathOf(st, i), "/") \o "|" \o Str(Find(st, 0, PathOf(st, i))) \o "|" \o Str(st.nodes[i].up)
FilesIn(st, d) == Map(Sorted(Keep(st.files, LAMBDA f : f.d = d)), LAMBDA f : d \o "/" \o f.n \o ".arxml " \o f.b)
Proj(st) == Map(Ids(st), LAMBDA i : NodeLine(st, i)) \o
            <<"top " \o Join(Map(PacksIn(st, 0), Str), ",")>> \o
            FilesIn(st, "cwd") \o FilesIn(st, "r1") \o FilesIn(st, "r2")

-----------------------------------------------------------------------------
(* on the specification: one file per configured document and per selected element, and none else *)
Wanted(st) == {d.file : d \in Elems(st.docs)} \cup
              UNION {LET p == Find(st, 0, m.ref) IN
                     IF p = 0 THEN {} ELSE {st.nodes[j].n : j \in {x \in Elems(ElemsIn(st, p)) :
                                              \E t \in Elems(m.types) : IsA(st.nodes[x].k, t)}}
                     : m \in Elems(st.maps)}
FilesAsConfigured(st) == \A f \in Elems(st.files) : f.n \in Wanted(st)
=============================================================================
