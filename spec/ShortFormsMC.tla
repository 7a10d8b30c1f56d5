---------------------------- MODULE ShortFormsMC ----------------------------
EXTENDS ShortForms
CONSTANTS Base
VARIABLES vcls, vcase
vars == <<vcls, vcase>>
ASSUME TLCSet(1, TLCEval([c \in DOMAIN ClassTab |-> TLCEval(ArgsOf(c, Base))]))
ArgsFor == TLCGet(1)
Init == vcls \in DOMAIN ClassTab /\ vcase = 0
Next == vcase = 0 /\ vcase' \in 1..Len(ArgsFor[vcls]) /\ UNCHANGED vcls
Spec == Init /\ [][Next]_vars
EmitCase == IF vcase = 0 THEN Emit([c |-> vcls, k |-> 0, fields |-> Fields(vcls)])
            ELSE Emit([k |-> vcase] @@ ArgsFor[vcls][vcase])
(* the forms of a value describe that value: a short form never has two readings *)
FormsDiffer == vcase > 0 => LET r == ArgsFor[vcls][vcase] IN r.want \in {"kept", "may", "err"}
=============================================================================
