------------------------------- MODULE EnumMC -------------------------------
(* Every enumeration in every schema version: the member each text of a     *)
(* universe (all texts of all enumerations, and slightly wrong ones) stands *)
(* for, and the text of each member ("" where there is none).               *)
EXTENDS EnumTable
VARIABLES venum, vver
vars == <<venum, vver>>
Versions == 48..51
Init == venum \in DOMAIN EnumTab /\ vver \in Versions
Spec == Init /\ [][UNCHANGED vars]_vars
Here(e, v) == SelectSeq(EnumTab[e], LAMBDA r : r.lo <= v)
AliasOf(e) == SelectSeq(Aliases, LAMBDA r : r.e = e)
Texts(e, v) == [i \in 1..Len(Here(e, v)) |-> <<Here(e, v)[i].t, Here(e, v)[i].n>>]
               \o [i \in 1..Len(AliasOf(e)) |-> <<AliasOf(e)[i].t, AliasOf(e)[i].n>>]
(* properties of the tables themselves *)
OneToOne == LET s == EnumTab[venum] IN
            /\ Distinct([i \in 1..Len(s) |-> s[i].n])
            /\ Distinct([i \in 1..Len(s) |-> s[i].t])
            /\ Distinct([i \in 1..Len(Texts(venum, vver)) |-> Texts(venum, vver)[i][1]])
EmitCase == Emit([e |-> venum, v |-> vver, members |-> [i \in 1..Len(EnumTab[venum]) |-> EnumTab[venum][i].n],
                  write |-> [i \in 1..Len(Here(venum, vver)) |-> <<Here(venum, vver)[i].n, Here(venum, vver)[i].t>>],
                  read |-> Texts(venum, vver)])
=============================================================================
