------------------------------ MODULE Packages ------------------------------
(* The package tree of a workspace or document: packages, elements and the  *)
(* named sub-objects of elements; references, lookups, path creation and    *)
(* access by user-defined keys (C09, C10).                                  *)
(*                                                                          *)
(* Objects are numbered in order of creation; object 1 is the root          *)
(* collection.  An operation is a record; Step is total: it gives the state *)
(* after the operation and its result ("err" for any refusal).              *)
EXTENDS Kit

(* st = [objs |-> Seq([k, n, parent, pk, el, subs, away]), keys |-> Seq([key, id])]; *)
(* away: the package is at the top of another collection (a document read, say)    *)
NewObj(k, n) == [k |-> k, n |-> n, parent |-> 0, pk |-> <<>>, el |-> <<>>, subs |-> <<>>, away |-> FALSE]

PkgInit == [objs |-> <<NewObj("col", "")>>, keys |-> <<>>, keyed |-> FALSE]

Obj(st, i) == st.objs[i]
Kids(o) == o.pk \o o.el \o o.subs
IsPkg(st, i) == st.objs[i].k = "pkg"
IsCol(st, i) == st.objs[i].k = "col"
IsSub(st, i) == st.objs[i].k = "sub"
IsElem(st, i) == ~IsPkg(st, i) /\ ~IsCol(st, i) /\ ~IsSub(st, i)

(* the member of container i with that name, 0 if there is none *)
Named(st, i, n) ==
  LET ks == Kids(Obj(st, i))
      ix == First(ks, LAMBDA j : Obj(st, j).n = n)
  IN IF ix = 0 THEN 0 ELSE ks[ix]

RECURSIVE FindFrom(_, _, _)
FindFrom(st, i, parts) ==
  IF parts = <<>> THEN i
  ELSE LET j == Named(st, i, parts[1])
       IN IF j = 0 THEN 0 ELSE FindFrom(st, j, Tail(parts))

Find(st, i, parts) == IF parts = <<>> THEN 0 ELSE FindFrom(st, i, parts)

(* path of an object from the root; <<>> for an object without a path to it *)
RECURSIVE Rooted(_, _)
Rooted(st, i) == IF i = 1 THEN TRUE
                 ELSE IF Obj(st, i).parent = 0 THEN FALSE ELSE Rooted(st, Obj(st, i).parent)
RECURSIVE PathOf(_, _)
PathOf(st, i) == IF i \in {0, 1} THEN <<>> ELSE PathOf(st, Obj(st, i).parent) \o <<Obj(st, i).n>>
RECURSIVE Away(_, _)
Away(st, i) == IF i = 1 THEN FALSE ELSE IF Obj(st, i).parent = 0 THEN Obj(st, i).away ELSE Away(st, Obj(st, i).parent)

RefStr(st, i) == IF Rooted(st, i) \/ Away(st, i) THEN "/" \o Join(PathOf(st, i), "/") ELSE "-"

(* -- building blocks ------------------------------------------------------ *)
AddObj(st, o) == [st EXCEPT !.objs = Append(@, o)]
Attach(st, c, i) ==
  [st EXCEPT !.objs[i].parent = c, !.objs[i].away = FALSE,
             !.objs[c].pk = IF Obj(st, i).k = "pkg" THEN Append(@, i) ELSE @,
             !.objs[c].el = IF IsElem(st, i) THEN Append(@, i) ELSE @]

(* insertion: containers hold packages, packages also elements; names are unique *)
CanAttach(st, c, i) ==
  /\ \/ IsCol(st, c) /\ IsPkg(st, i)
     \/ IsPkg(st, c) /\ (IsPkg(st, i) \/ IsElem(st, i))
  /\ Named(st, c, Obj(st, i).n) = 0

CreateIn(st, c, n) ==
  LET s1 == AddObj(st, NewObj("pkg", n)) IN Attach(s1, c, Len(s1.objs))

(* creates the missing packages of a path below c; id of the last one, 0 if refused *)
RECURSIVE Make(_, _, _)
Make(st, c, parts) ==
  IF parts = <<>> THEN [st |-> st, id |-> c]
  ELSE LET j == Named(st, c, parts[1])
       IN IF j = 0
          THEN LET s1 == CreateIn(st, c, parts[1]) IN Make(s1, Len(s1.objs), Tail(parts))
          ELSE IF IsPkg(st, j) THEN Make(st, j, Tail(parts)) ELSE [st |-> st, id |-> 0]

RECURSIVE MakeAll(_, _, _)
MakeAll(st, paths, acc) ==
  IF paths = <<>> THEN [st |-> st, ids |-> acc]
  ELSE LET r == Make(st, 1, paths[1]) IN MakeAll(r.st, Tail(paths), Append(acc, r.id))

RECURSIVE AddSubs(_, _, _)
(* subs is a sequence of [n, up]: up = 0 direct child of the element, else index of an earlier sub *)
AddSubs(st, e, subs) ==
  LET base == Len(st.objs)
      N == Len(subs)
      OwnerOf(k) == IF subs[k].up = 0 THEN e ELSE base + subs[k].up
      objs1 == st.objs \o [k \in 1..N |-> [NewObj("sub", subs[k].n) EXCEPT !.parent = OwnerOf(k)]]
      KidsOf(o) == Keep([k \in 1..N |-> base + k], LAMBDA x : OwnerOf(x - base) = o)
  IN [st EXCEPT !.objs = [i \in 1..Len(objs1) |-> IF i = e \/ i > base
                                                  THEN [objs1[i] EXCEPT !.subs = KidsOf(i)] ELSE objs1[i]]]

KeyIx(st, key) == First(st.keys, LAMBDA e : e.key = key)
KeyId(st, key) == st.keys[KeyIx(st, key)].id

Err(st) == [st |-> st, res |-> "err"]
Ok(st, id) == [st |-> st, res |-> IF id = 0 THEN "none" ELSE "id:" \o Str(id)]
Ids(s) == "ids:" \o Join(Map(s, Str), ",")

(* patterns apply from the start of a name, to as much of it as they cover *)
Matches(name, how, x) ==
  CASE how = "start" -> StartsWith(name, x)
    [] how = "whole" -> name = x
    [] how = "within" -> Contains(name, x)
    [] how = "end" -> EndsWith(name, x)
    [] how = "later" -> Contains(SubSeq(name, 2, Len(name)), x)
    [] how = "any" -> TRUE
Step(st, op) ==
  CASE op.op = "newpkg" ->
         LET s1 == AddObj(st, NewObj("pkg", op.n)) IN Ok(s1, Len(s1.objs))
    [] op.op = "newelem" ->
         LET s1 == AddObj(st, NewObj(op.kind, op.n))
             e  == Len(s1.objs)
         IN Ok(AddSubs(s1, e, op.subs), e)
    [] op.op = "append" ->
         IF CanAttach(st, op.c, op.i)
         THEN [st |-> Attach(st, op.c, op.i), res |-> "ok"] ELSE Err(st)
    [] op.op = "lend" -> [st |-> [st EXCEPT !.objs[op.i].away = TRUE], res |-> "ok"]
    [] op.op = "createpkg" ->
         IF Named(st, op.c, op.n) # 0 THEN Err(st)
         ELSE LET s1 == CreateIn(st, op.c, op.n) IN Ok(s1, Len(s1.objs))
    [] op.op = "make" ->
         IF op.lead = "/" /\ op.c # 1 THEN Err(st)
         ELSE LET r == Make(st, op.c, op.path) IN IF r.id = 0 THEN Err(r.st) ELSE Ok(r.st, r.id)
    [] op.op = "makemany" ->
         LET r == MakeAll(st, op.paths, <<>>) IN [st |-> r.st, res |-> Ids(r.ids)]
    [] op.op = "find" -> Ok(st, IF op.lead \in {"", "/"} THEN Find(st, op.c, op.path) ELSE 0)   \* nothing is named so
    [] op.op = "filter" ->
         [st |-> st, res |-> Ids(Keep(Obj(st, op.c).el, LAMBDA e : Obj(st, e).n \in Elems(op.names)))]
    [] op.op = "filterpattern" ->
         [st |-> st, res |-> Ids(Keep(Obj(st, op.c).el, LAMBDA e : Matches(Obj(st, e).n, op.how, op.n)))]
    [] op.op = "keymap" ->
         LET r == MakeAll([st EXCEPT !.keys = <<>>], op.paths, <<>>)
         IN [st |-> [r.st EXCEPT !.keys = [k \in 1..Len(op.keys) |-> [key |-> op.keys[k], id |-> r.ids[k]]]],
             res |-> "ok"]
    [] op.op = "getkey" ->
         IF KeyIx(st, op.key) = 0 THEN Err(st) ELSE Ok(st, KeyId(st, op.key))
    [] op.op = "addkey" ->
         IF KeyIx(st, op.key) = 0 THEN Err(st)
         ELSE IF ~CanAttach(st, KeyId(st, op.key), op.i) THEN Err(st)
         ELSE [st |-> Attach(st, KeyId(st, op.key), op.i), res |-> "ok"]
    [] op.op = "findkey" ->
         IF KeyIx(st, op.key) = 0 THEN Err(st) ELSE Ok(st, Find(st, KeyId(st, op.key), op.path))

(* -- what the public API shows: one line per object ----------------------- *)
Line(st, i) ==
  LET o == Obj(st, i) IN
  Str(i) \o "|" \o o.n \o "|" \o RefStr(st, i)
    \o "|" \o (IF Rooted(st, i) THEN Str(Find(st, 1, PathOf(st, i))) ELSE IF Away(st, i) THEN "away" ELSE "-")
    \o "|" \o Str(o.parent)
    \o "|p" \o Join(Map(o.pk, Str), ",") \o "|e" \o Join(Map(o.el, Str), ",")
    \o "|s" \o Join(Map(o.subs, Str), ",")
Proj(st) == [i \in 1..(Len(st.objs) - 1) |-> Line(st, i + 1)]
            \o <<"root p" \o Join(Map(st.objs[1].pk, Str), ",")>>

(* -- the properties, on the specification --------------------------------- *)
Attached(st) == {i \in 2..Len(st.objs) : Rooted(st, i)}
UniqueNames(st) ==
  \A i \in 1..Len(st.objs) :
    (st.objs[i].k \in {"col", "pkg"}) => Distinct(Map(Kids(st.objs[i]), LAMBDA j : Obj(st, j).n))
RefLookup(st) == \A i \in Attached(st) : Find(st, 1, PathOf(st, i)) = i
RefsInjective(st) == \A i, j \in Attached(st) : RefStr(st, i) = RefStr(st, j) => i = j
OwnerAgrees(st) == \A i \in 2..Len(st.objs) :
                     /\ Obj(st, i).parent # 0 => i \in Elems(Kids(Obj(st, Obj(st, i).parent)))
                     /\ \A k \in Elems(Kids(Obj(st, i))) : Obj(st, k).parent = i
KeysRooted(st) == \A e \in Elems(st.keys) : IsPkg(st, e.id) /\ Rooted(st, e.id)
=============================================================================
