---------------------------- MODULE NumberFormsMC ----------------------------
(* one state per sort of place and text *)
EXTENDS NumberForms
VARIABLES vsort, vtext, vfault
Init == /\ vsort \in Sorts
        /\ vfault \in {"0", "1"}
        /\ vtext \in (IF vfault = "1" THEN Faulty(vsort) ELSE TextsOf(vsort))
Spec == Init /\ [][UNCHANGED <<vsort, vtext, vfault>>]_<<vsort, vtext, vfault>>
EmitText == Emit([sort |-> vsort, text |-> vtext, fault |-> vfault])
(* a text has one meaning: whole numbers mean the same wherever they fit, but for octal ones *)
OneMeaning == vfault = "1" \/ \A s \in Sorts : (Fits1(s, vtext) /\ ~IsOct(vtext)) => Means(s, vtext) = Means(vsort, vtext)
=============================================================================
