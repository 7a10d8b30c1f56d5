------------------------------ MODULE NumbersMC ------------------------------
(* one state per number to try *)
EXTENDS Numbers
VARIABLES vlit
Init == vlit \in Ints \cup Floats
Spec == Init /\ [][UNCHANGED vlit]_vlit
(* every notation's canonical text for an integer denotes it; digits survive *)
Kind(s) == IF s \in Ints THEN "int" ELSE "float"
EmitCase == Emit([lit |-> vlit, k |-> Kind(vlit), fits |-> [f \in Notations |-> Fits(f, vlit)]])
=============================================================================
