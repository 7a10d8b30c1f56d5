----------------------------- MODULE PackagesMC -----------------------------
(* Exhaustive exploration of the package tree with small constants.  One    *)
(* action per public operation.  Every transition is emitted as a test for  *)
(* the real code: history, operation, result, projected state.              *)
EXTENDS Packages, SequencesExt
CONSTANTS Names,     \* names used for packages and elements
          MaxObjs,   \* bound on the number of objects
          Kinds,     \* kinds of detached objects
          MaxPath,   \* length of paths
          Keys       \* {} switches the key operations off
VARIABLES st, hist
vars == <<st, hist>>
View == st

Init == st = PkgInit /\ hist = <<>>
N == Len(st.objs)
Do(op) == LET r == Step(st, op) IN
          /\ Len(r.st.objs) <= MaxObjs
          /\ st' = r.st
          /\ hist' = Append(hist, op)
          /\ Emit([h |-> hist', r |-> r.res, p |-> Proj(r.st), c |-> "ws"])

Containers == {i \in 1..N : st.objs[i].k \in {"col", "pkg"}}
Loose == {i \in 2..N : st.objs[i].parent = 0 /\ st.objs[i].k # "sub"}
RECURSIVE Inside(_, _)
Inside(c, i) == c = i \/ (st.objs[c].parent # 0 /\ Inside(st.objs[c].parent, i))
Paths == SeqsOf(Names, 1, MaxPath)
SubsOf(k) == IF k = "leaf" THEN <<>>
             ELSE IF k = "idt" THEN <<[n |-> "s1", up |-> 0], [n |-> "s2", up |-> 1]>>
             ELSE <<[n |-> "s1", up |-> 0]>>

NewPackage == \E n \in Names : Do([op |-> "newpkg", n |-> n])
NewElement == \E n \in Names, k \in Kinds : Do([op |-> "newelem", kind |-> k, n |-> n, subs |-> SubsOf(k)])
AppendItem == \E c \in Containers, i \in Loose :
                 ~Inside(c, i) /\ Do([op |-> "append", c |-> c, i |-> i])
(* a package without an owner comes to belong to another collection *)
LendPackage == \E i \in Loose : IsPkg(st, i) /\ ~st.objs[i].away /\ Do([op |-> "lend", i |-> i])
CreatePackage == \E c \in Containers, n \in Names : Do([op |-> "createpkg", c |-> c, n |-> n])
MakePackages == \E c \in Containers, p \in Paths, lead \in {"", "/"} :
                   Do([op |-> "make", c |-> c, path |-> p, lead |-> lead])
(* all lookups are asked in every distinct state (they change nothing): one record per state *)
Lookups == LET P == SetToSeq(SeqsOf(Names \cup {"s1", "s2"}, 0, MaxPath + 1))
               C == SetToSeq(Containers)
               K == SetToSeq(Keys)
               G == SetToSeq({c \in Containers : st.objs[c].k = "pkg"})
               F == SetToSeq(SUBSET Names)
               R == SetToSeq({"start", "whole", "within", "end", "later"} \X Names)
           IN Flat([g \in 1..Len(G) |->
                 [k \in 1..Len(F) |-> [op |-> "filter", c |-> G[g], names |-> SetToSeq(F[k])]] \o
                 [k \in 1..Len(R) |-> [op |-> "filterpattern", c |-> G[g], how |-> R[k][1], n |-> R[k][2]]]])
              \o Flat([c \in 1..Len(C) |-> Flat([k \in 1..Len(P) |->
                 << [op |-> "find", c |-> C[c], path |-> P[k], lead |-> ""],
                    [op |-> "find", c |-> C[c], path |-> P[k], lead |-> "/"] >> \o
                    (IF Len(P[k]) <= 2 THEN [j \in 1..3 |-> [op |-> "find", c |-> C[c], path |-> P[k], lead |-> <<"//", "./", " ">>[j]]] ELSE <<>>)])])
              \o Flat([k \in 1..Len(K) |-> <<[op |-> "getkey", key |-> K[k]]>> \o
                    [j \in 1..Len(P) |-> [op |-> "findkey", key |-> K[k], path |-> P[j], lead |-> ""]]])
EmitLookups == LET Q == Lookups IN
               Emit([h |-> hist, q |-> Q, qr |-> [k \in 1..Len(Q) |-> Step(st, Q[k]).res]])
SetKeys == \E a \in SeqsOf(Names, 1, MaxPath), b \in {<<"A">>, <<"A", "B">>} :
             /\ Keys # {}
             /\ \A i \in 1..N : ~IsElem(st, i) \/ st.objs[i].parent # 0   \* keep it small
             /\ Make(st, 1, a).id # 0
             /\ Make(Make(st, 1, a).st, 1, b).id # 0
             /\ Do([op |-> "keymap", keys |-> <<"k1", "k2">>, paths |-> <<a, b>>])
AddKey == \E k \in Keys, i \in Loose :
            /\ KeyIx(st, k) # 0 => ~Inside(KeyId(st, k), i)
            /\ Do([op |-> "addkey", key |-> k, i |-> i])

Next == \/ NewPackage \/ NewElement \/ AppendItem \/ LendPackage \/ CreatePackage \/ MakePackages \/ SetKeys \/ AddKey
Spec == Init /\ [][Next]_vars

InvUnique == UniqueNames(st)
InvRefLookup == RefLookup(st)
InvInjective == RefsInjective(st)
InvOwner == OwnerAgrees(st)
InvKeys == KeysRooted(st)
(* an existing object never moves, and its reference never changes once it has one *)
RefStable == [][\A i \in Attached(st) : RefStr(st', i) = RefStr(st, i)]_vars
(* path creation is idempotent *)
InvIdempotent == \A p \in Paths : LET r == Make(st, 1, p) IN
                   r.id # 0 => Make(r.st, 1, p) = [st |-> r.st, id |-> r.id]
=============================================================================
