------------------------------ MODULE CreatesMC ------------------------------
(* One state per creator and element to create; each is emitted with the call. *)
EXTENDS Creates
CONSTANTS Base
VARIABLES vcre, vcase
vars == <<vcre, vcase>>
ASSUME TLCSet(1, TLCEval([i \in 1..Len(Creators) |-> Plan(Creators[i], Base)]))
Plans == TLCGet(1)
Init == vcre \in 1..Len(Creators) /\ vcase = 0
Next == vcase = 0 /\ vcase' \in 1..Len(Plans[vcre]) /\ UNCHANGED vcre
Spec == Init /\ [][Next]_vars
Style == <<"named", "placed", "all">>[(vcase % 3) + 1]
EmitCase ==
  LET cr == Creators[vcre] IN
  IF vcase = 0 THEN Emit([k |-> 0, i |-> vcre, o |-> cr.o, on |-> IF cr.o \in {"", "Document"} THEN Atom("=none", "", "") ELSE Bare(cr.o, 5)])
  ELSE LET n == Plans[vcre][vcase] IN
       Emit([k |-> vcase, i |-> vcre, o |-> cr.o, m |-> cr.m, c |-> cr.c, a |-> cr.a, first |-> cr.first, free |-> cr.free,
             style |-> Style, call |-> Call(n, cr, Style), others |-> Others(cr, Call(n, cr, Style)), n |-> Outcome(n, cr, Style)])
(* the call says all there is to the element: no attribute is both given and determined, none is left out *)
Told == vcase = 0 \/
  LET cr == Creators[vcre]
      n == Plans[vcre][vcase]
      call == Call(n, cr, Style)
      given == {call[i].p : i \in 1..Len(call)}
  IN \A i \in 1..Len(n.f) :
       LET a == Fields(n.c)[i].a IN
       n.f[i] # <<>> => a \in given \/ a \in Fixed(cr) \/ a \in FreeOf(cr) \/ a \in DeepHeads(cr)
=============================================================================
